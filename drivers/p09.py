"""P09: which observations a simulation returns, and their columns (spec: Simulate)."""

from drivers.simulate import exhaustive, random_histories


def run(ctx):
    exhaustive(ctx, 1 if ctx.quick else 2, {"rows"})
    random_histories(ctx, 600 if ctx.quick else 6000, {"rows"}, kinds=["const", "step"], tops=("const", "step", "add", "rand", "bpoly"))
