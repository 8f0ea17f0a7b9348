"""P17: post-processing of results (spec: PostProcess)."""

from drivers.postprocess import exhaustive, random_histories


def run(ctx):
    exhaustive(ctx, 2 if ctx.quick else 3)
    random_histories(ctx, 500 if ctx.quick else 8000, 6)
