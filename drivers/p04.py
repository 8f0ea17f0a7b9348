"""P04: node names, wiring and structure reports stay true under edits (spec: ParamGraph)."""

from drivers.paramgraph import CONST, random_histories, replay_mc


def run(ctx):
    replay_mc(ctx, ctx.explore("ParamGraph", 4 if ctx.quick else 5, CONST))
    random_histories(ctx, 2500 if ctx.quick else 20000, 26, edits=0.6, labels=0.0)
    random_histories(ctx, 800 if ctx.quick else 5000, 20, edits=0.5, labels=0.15)
