"""P27: which transitions on-policy agents learn from, and when."""
from harness.props import onpol


def run(ctx):
    onpol.design(ctx)
    s, b = onpol.behaviours(ctx, 110, 1000)
    onpol.validate(ctx, onpol.jobs(ctx, 'P27', s, b, True))
