"""P08: an observation table stays consistent through every edit and round trip (spec: Survey)."""

from drivers.survey import CONST, random_histories, replay_mc


def run(ctx):
    replay_mc(ctx, ctx.explore("Survey", 2 if ctx.quick else 3, CONST))
    random_histories(ctx, 1200 if ctx.quick else 15000, 14, edits=0.6)
