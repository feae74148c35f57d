"""P22: what replay-based agents store in single-env mode."""
from harness.props import offpol


def run(ctx):
    offpol.design(ctx, ['S', 'D', 'T'], ['SL'])
    single, _ = offpol.behaviours(ctx, ['S', 'E'], 160, 1500)
    offpol.validate(ctx, offpol.jobs(ctx, 'P22', single, [], store=True))
