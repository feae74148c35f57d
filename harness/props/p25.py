"""P25: value updates of replay-based agents on tabular functions."""
from harness.props import offpol


def run(ctx):
    offpol.design(ctx, ['S', 'D', 'T', 'A'], ['SL', 'BL'])
    s, b = offpol.behaviours(ctx, ['S', 'E', 'B'], 140, 1500)
    offpol.validate(ctx, offpol.jobs(
        ctx, 'P25', s, b, prio=lambda r, k: k in offpol.DISC and
        r.random() < .35))
