"""P26: targets and updates of on-policy agents."""
from harness.props import onpol


def run(ctx):
    onpol.design(ctx)
    s, b = onpol.behaviours(ctx, 160, 1500)
    onpol.validate(ctx, onpol.jobs(ctx, 'P26', s, b, False))
