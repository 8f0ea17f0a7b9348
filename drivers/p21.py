"""P21: data files are read back faithfully (specs: Lclib, Files)."""

from drivers import files, lclib


def run(ctx):
    files.run(ctx, 3 if ctx.quick else 4, 500 if ctx.quick else 8000, 12)
    lclib.exhaustive(ctx, 4 if ctx.quick else 5)
    lclib.simulated(ctx, 1500 if ctx.quick else 20000, 14)
    lclib.libraries(ctx, 400 if ctx.quick else 6000)
