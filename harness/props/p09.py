"""P09: when replay-based agents update, and on what."""
from harness.props import offpol


def run(ctx):
    offpol.design(ctx, ['S', 'B', 'A'], ['BL', 'SL', 'B3L'])
    s, b = offpol.behaviours(ctx, ['S', 'E', 'B'], 110, 1000)
    offpol.validate(ctx, offpol.jobs(
        ctx, 'P09', s, b, prio=lambda r, k: k in offpol.DISC and
        r.random() < .3))
