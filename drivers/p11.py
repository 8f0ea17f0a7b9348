"""P11: noise follows the conditions of each row (spec: Noise)."""

from drivers.noise import exhaustive, random_histories


def run(ctx):
    exhaustive(ctx, 1 if ctx.quick else 3)
    random_histories(ctx, 1300 if ctx.quick else 20000, 7)
