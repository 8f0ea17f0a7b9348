"""P15: composite models are the sum or the selected one of their parts (spec: Pipeline)."""

from drivers.pipeline import ALL, exhaustive, random_histories, selections


def run(ctx):
    exhaustive(ctx, 2 if ctx.quick else 4)
    random_histories(ctx, 1000 if ctx.quick else 10000, ALL, ["add", "rand"], 0.6)
    random_histories(ctx, 600 if ctx.quick else 6000, ALL + ["bpoly", "bstatic"] * 2, ["add", "rand"], 0.4)
    selections(ctx, 150 if ctx.quick else 1500)
