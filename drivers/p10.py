"""P10: fluxes, errors and noise of simulated observations (spec: Simulate)."""

from drivers.simulate import exhaustive, random_histories


def run(ctx):
    exhaustive(ctx, 1 if ctx.quick else 2, {"rows", "flux"})
    random_histories(ctx, 700 if ctx.quick else 7000, {"rows", "flux"})
