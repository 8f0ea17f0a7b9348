"""P14: band fluxes stay aligned with times and filters (spec: Pipeline)."""

from drivers.pipeline import ALL, random_histories
from drivers.relations import relations


def run(ctx):
    bands = ["bpoly", "bstatic"]
    random_histories(ctx, 1200 if ctx.quick else 12000, ALL + bands, ALL + bands * 3, 0.1)
    random_histories(ctx, 600 if ctx.quick else 6000, ALL + bands * 2, ["add", "rand"], 0.05)
    relations(ctx, 100 if ctx.quick else 2000)
