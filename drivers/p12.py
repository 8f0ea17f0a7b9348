"""P12: passbands integrate correctly and groups agree with their members (spec: Passbands)."""

from drivers.passbands import CONST, mc_replay, random_histories


def run(ctx):
    mc_replay(ctx, ctx.explore("Passbands", 2 if ctx.quick else 4, CONST))
    random_histories(ctx, 1200 if ctx.quick else 12000, 10)
