"""P16: light curve templates (spec: Templates)."""

from drivers.templates import exhaustive, random_histories


def run(ctx):
    exhaustive(ctx, 1 if ctx.quick else 2)
    random_histories(ctx, 1500 if ctx.quick else 15000, 8)
