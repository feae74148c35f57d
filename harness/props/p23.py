"""P23: what replay-based agents store in batch mode."""
from harness.props import offpol


def run(ctx):
    offpol.design(ctx, ['B', 'A'], ['B3', 'BL', 'B3L'])
    _, batch = offpol.behaviours(ctx, ['B'], 300, 3000)
    offpol.validate(ctx, offpol.jobs(
        ctx, 'P23', [], batch, store=True,
        n_envs=lambda r, k: r.choice([1, 2, 3, 3])))
