"""P13: redshift, effects and extrapolation of SEDs (spec: Pipeline)."""

from drivers.pipeline import ALL, exhaustive, random_histories
from drivers.relations import relations


def run(ctx):
    exhaustive(ctx, 2 if ctx.quick else 4)
    random_histories(ctx, 3000 if ctx.quick else 30000, ALL, ALL, 0.85)
    relations(ctx, 200 if ctx.quick else 3000)
