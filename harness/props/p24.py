"""P24: when and how target networks change."""
from harness.props import offpol


def run(ctx):
    offpol.design(ctx, ['S', 'D', 'T', 'A'], ['SL', 'BL'])
    s, b = offpol.behaviours(ctx, ['S', 'E', 'B'], 110, 1000)
    offpol.validate(ctx, offpol.jobs(
        ctx, 'P24', s, b, bn=lambda r, k: r.random() < .5))
