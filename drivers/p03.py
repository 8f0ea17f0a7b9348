"""P03: sampling a parameter graph yields a jointly consistent assignment (spec: ParamGraph)."""

from drivers.paramgraph import CONST, random_histories, replay_mc


def run(ctx):
    # All graphs of up to three nodes, then one or two calls on each.
    replay_mc(ctx, ctx.explore("ParamGraph", 4 if ctx.quick else 5, CONST))
    if not ctx.quick:
        replay_mc(ctx, ctx.simulate("ParamGraph", 20000, 8, dict(CONST, MaxNodes=5)))
    random_histories(ctx, 2500 if ctx.quick else 20000, 22, edits=0.0, labels=0.0)
    random_histories(ctx, 500 if ctx.quick else 5000, 22, edits=0.3, labels=0.0)
