"""P01: GraphState is a faithful keyed store under any history (spec: GraphStore)."""

from drivers.graphstore import CONST, random_histories, replay_mc

KINDS = {"new", "set", "update", "copy", "contains", "get", "extract"}
WEIGHTS = {"new": 1, "set": 12, "update": 3, "updict": 2, "copy": 3, "contains": 3, "get": 4, "extract": 4, "slice": 1, "eq": 1, "trip": 0.5, "concat": 0.5}


def run(ctx):
    # Every history of 2 operations from five prepared stores (exhaustive small scope).
    replay_mc(ctx, ctx.explore("GraphStore", 2, dict(CONST, MCKinds=KINDS)))
    # Deeper, writes only.
    writes = {"new", "set", "update", "copy"}
    replay_mc(ctx, ctx.explore("GraphStore", 2 if ctx.quick else 3, dict(CONST, MCKinds=writes, MCPars={"x"}, MCVals={"5", "6"})))
    # Long random histories, executed by the specification and replayed on the code.
    n = 1500 if ctx.quick else 12000
    random_histories(ctx, n, 24, WEIGHTS, poke=False)
    random_histories(ctx, n // 2, 24, dict(WEIGHTS, poke=6, copy=6), poke=True)
