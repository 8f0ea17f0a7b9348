"""P02: GraphState slicing, concatenation and export lose and mix nothing (spec: GraphStore)."""

from drivers.graphstore import CONST, random_histories, replay_mc

KINDS = {"slice", "iter", "nodestate", "concat", "trip", "eq", "copy"}
WEIGHTS = {"new": 1, "set": 8, "updict": 1, "update": 1, "copy": 2, "slice": 4, "iter": 2, "nodestate": 2, "concat": 4, "trip": 5, "eq": 4, "extract": 1}


def run(ctx):
    replay_mc(ctx, ctx.explore("GraphStore", 2, dict(CONST, MCKinds=KINDS)))
    if not ctx.quick:
        replay_mc(ctx, ctx.explore("GraphStore", 3, dict(CONST, MCKinds={"slice", "concat", "trip", "eq"})))
    n = 1500 if ctx.quick else 12000
    random_histories(ctx, n, 24, WEIGHTS, poke=False)
    random_histories(ctx, n // 3, 24, dict(WEIGHTS, poke=6), poke=True)
