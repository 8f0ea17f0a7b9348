"""P06: samplers of given values (spec: Samplers)."""

import numpy as np
import pandas as pd
from astropy.table import Table
from lightcurvelynx.base_models import ParameterizedNode
from lightcurvelynx.graph_state import GraphState
from lightcurvelynx.math_nodes.distribution_sampler import DistributionSampler
from lightcurvelynx.obstable.opsim import create_random_opsim
from lightcurvelynx.obstable.ztf_obstable import create_random_ztf_obs_data
from lightcurvelynx.math_nodes.given_sampler import (
    BinarySampler,
    GivenValueList,
    GivenValueSampler,
    GivenValueSelector,
    TableSampler,
)

CONST = {"MCLens": {1, 2, 3, 5}, "MCNums": {1, 2, 3}}


class World:
    """One real sampler; value id v is represented by a value of the chosen style."""

    def __init__(self, cfg, style, seed):
        self.cfg, self.style = cfg, style
        kind, rows = cfg["kind"], cfg["rows"]
        self.count = 0
        self.source = None
        if kind in ("tord", "trand"):
            ncol = len(rows[0])
            self.cols = [f"c{j}" for j in range(ncol)]
            # Columns of different types: numbers, text, numbers, ...
            data = {c: np.array([self.real(r[j], j) for r in rows]) for j, c in enumerate(self.cols)}
            self.source = [data, Table(data), pd.DataFrame(data)][style % 3]
            self.node = TableSampler(self.source, in_order=kind == "tord", seed=seed)
            return
        self.cols = ["function_node_result"]
        vals = [self.real(r[0], 0) for r in rows]
        given = [list(vals), np.array(vals)][style % 2]
        if kind == "list":
            self.node = GivenValueList(given)
        elif kind == "value":
            w = cfg["w"]
            weights = None if len(set(w)) == 1 and style % 2 else [list(w), np.array(w), np.array(w) / sum(w)][style % 3]
            self.node = GivenValueSampler(given, weights=weights, seed=seed)
        elif kind == "select":
            self.node = GivenValueSelector(given, GivenValueList(np.array(cfg["idx"])))
        elif kind == "binary":
            self.node = BinarySampler(cfg["w"][1] / sum(cfg["w"]), seed=seed)
        elif kind == "dist":
            y = np.array(cfg["w"], dtype=[float, int][style % 2])
            self.node = DistributionSampler(np.arange(len(y)) * 2.0 + 10.0, y, seed=seed)

    def real(self, v, col):
        return [float(v), f"v{v}", v, v + 0.5][(self.style + col) % 4]

    def back(self, x, col):
        """The value id of a real value, -1 for anything that is no given value."""
        if np.ndim(x) != 0:
            return -1
        kind = self.cfg["kind"]
        if kind == "binary":
            return int(x) if x in (0, 1) else -1
        if kind == "dist":  # odd: a grid point, even: between two of them
            t = (float(x) - 10.0) / 2.0
            if not 0.0 <= t <= len(self.cfg["w"]) - 1:
                return -1
            return 2 * int(t) + (1 if t == int(t) else 2)
        kind = (self.style + col) % 4
        s = str(x)
        if kind == 1:
            return int(s[1:]) if s[:1] == "v" and s[1:].isdigit() else -1
        y = float(x) - (0.5 if kind == 3 else 0)
        return int(y) if y == int(y) else -1

    def draw(self, num):
        """Draw through one of the public ways of sampling a node."""
        self.count += 1
        how = (self.count + self.style) % 3
        try:
            if how == 0:
                state = self.node.sample_parameters(num_samples=num)
                vals = [state[f"{self.node}.{c}"] for c in self.cols]
            elif how == 1:
                parent = ParameterizedNode()
                for c in self.cols:
                    parent.add_parameter("p_" + c, getattr(self.node, c))
                state = parent.sample_parameters(num_samples=num)
                vals = [parent.get_param(state, "p_" + c) for c in self.cols]
            else:
                state = GraphState(num)
                if self.cfg["kind"] == "select":
                    state = self.node.sample_parameters(num_samples=num)
                    res = self.node.get_param(state, self.cols[0])
                else:
                    self.node.set_graph_positions()
                    res = self.node.compute(state)
                vals = [res] if len(self.cols) == 1 else list(res)
        except IndexError:
            return {"k": "draw", "num": num, "r": "IndexError", "rows": []}
        except Exception as e:  # noqa: BLE001
            return {"k": "draw", "num": num, "r": f"{type(e).__name__}: {e}", "rows": []}
        rows = []
        for v in vals:
            if num == 1:
                if np.ndim(v) != 0:
                    return {"k": "draw", "num": num, "r": "a scalar is returned for one sample", "rows": []}
            elif np.shape(v) != (num,):
                return {"k": "draw", "num": num, "r": f"shape {np.shape(v)}", "rows": []}
        for i in range(num):
            rows.append([self.back(v if num == 1 else v[i], j) for j, v in enumerate(vals)])
        return {"k": "draw", "num": num, "r": "ok", "rows": rows}

    def reset(self):
        self.node.reset()
        return {"k": "reset"}

    def mutate(self):
        src = self.source
        if isinstance(src, dict):
            for c in src:
                src[c][:] = src[c][0]
        elif isinstance(src, Table):
            src[self.cols[0]][:] = src[self.cols[0]][0]
        else:
            src.loc[:, self.cols[0]] = src[self.cols[0]].iloc[0]
        return {"k": "mutate"}


def random_trace(rng, n, style):
    """A random sampler, driven with a random history; returns the recorded trace."""
    kind = rng.choice(["list", "tord", "tord", "trand", "value", "value", "select", "binary", "dist"])
    ncol = rng.choice([1, 1, 2, 3]) if kind in ("tord", "trand") else 1
    nrow = rng.choice([1, 2, 3, 5, 8, 20, 40])
    if kind == "trand":
        nrow = rng.choice([1, 2, 3, 6])
    # Rows share values with each other, so that misaligned columns are visible but no value is unique.
    rows = [[rng.randrange(1, 4 + nrow) for _ in range(ncol)] for _ in range(nrow)]
    cfg = {"kind": kind, "rows": rows, "w": [], "idx": []}
    if kind == "value":
        cfg["w"] = [1] * nrow if rng.random() < 0.3 else [rng.choice([0, 0, 1, 2, 5]) for _ in range(nrow)]
        if sum(cfg["w"]) == 0:
            cfg["w"][-1] = 3
    elif kind == "binary":
        cfg["w"] = rng.choice([[0, 1], [1, 0], [1, 1], [3, 1], [1, 15]])
    elif kind == "dist":
        cfg["w"] = [rng.choice([0, 1, 2, 5]) for _ in range(rng.choice([2, 3, 5, 8]))]
        if sum(cfg["w"]) == 0:
            cfg["w"][-1] = 3
        if len(cfg["w"]) > 1 and rng.random() < 0.5:
            cfg["w"][0] = 4  # much mass at the first point
        cfg["rows"] = [[1]]
    elif kind == "select":
        cfg["idx"] = [rng.randrange(0, nrow) for _ in range(30)]
        if rng.random() < 0.4:
            cfg["idx"][rng.randrange(2, 30)] = rng.choice([-1, nrow, nrow + 2, -nrow])
    w = World(cfg, style, seed=n)
    ev = []
    for _ in range(rng.choice([3, 8, 15])):
        x = rng.random()
        if x < 0.15 and kind in ("list", "tord", "trand"):
            ev.append(w.reset())
        elif x < 0.25 and kind in ("tord", "trand"):
            ev.append(w.mutate())
        else:
            ev.append(w.draw(rng.choice([1, 1, 2, 3, 4, 7, 40 if kind in ("trand", "value", "binary", "dist") else 1])))
    if kind in ("value", "binary", "dist") and rng.random() < 0.3:
        ev.append(stat(w, kind, cfg, 2000))
    return {"cfg": cfg, "ev": ev}


def stat(w, kind, cfg, n):
    e = w.draw(n)
    if e["r"] != "ok":
        return e
    got = [r[0] for r in e["rows"]]
    if kind == "dist":  # draws at most the k-th grid point (id 2k+1)
        counts = [sum(1 for g in got if g <= 2 * k + 1) for k in range(len(cfg["w"]))]
    elif kind == "binary":
        counts = [got.count(0), got.count(1)]
    else:
        # Equal values share their weight: only countable if the values are distinct.
        ids = [r[0] for r in cfg["rows"]]
        if len(set(ids)) != len(ids):
            return e
        counts = [got.count(v) for v in ids]
    return {"k": "stat", "n": n, "counts": counts}


def pointings(ctx):
    """Random survey tables: 6 bands of equal area x 4 quarters of right ascension, all equally likely."""
    traces = []
    for fn in (create_random_opsim, create_random_ztf_obs_data):
        table = fn(4800, seed=ctx.rng.randint(0, 10**6))
        ra, dec = np.asarray(table["ra"], dtype=float), np.asarray(table["dec"], dtype=float)
        inside = np.isfinite(ra) & np.isfinite(dec) & (ra >= 0) & (ra <= 360) & (np.abs(dec) <= 90)
        with np.errstate(invalid="ignore"):
            cell = np.where(inside, 1 + 4 * np.clip(np.floor((np.sin(np.radians(dec)) + 1) * 3), 0, 5) + np.clip(np.floor(ra / 90), 0, 3), 0).astype(int)
        cfg = {"kind": "value", "rows": [[k] for k in range(1, 25)], "w": [1] * 24, "idx": []}
        traces.append({"cfg": cfg, "ev": [{"k": "draw", "num": len(cell), "r": "ok", "rows": [[int(c)] for c in cell]},
                                          {"k": "stat", "n": len(cell), "counts": [int(np.sum(cell == k)) for k in range(1, 25)]}]})
    return traces


def constructors(ctx):
    """Rejected configurations."""
    cases = [
        (lambda: GivenValueList([]), ValueError), (lambda: GivenValueSampler([]), ValueError),
        (lambda: GivenValueSampler([1, 2], weights=[1.0]), ValueError), (lambda: GivenValueSelector([], 0), ValueError),
        (lambda: TableSampler({"a": []}), ValueError), (lambda: TableSampler(5), TypeError),
        (lambda: BinarySampler(-0.1), ValueError), (lambda: BinarySampler(1.1), ValueError),
        (lambda: DistributionSampler(np.arange(3), np.array([1.0, 2.0])), ValueError),
        (lambda: DistributionSampler(np.arange(3), np.array([1.0, -2.0, 3.0])), ValueError),
    ]
    for k, (fn, cls) in enumerate(cases):
        ctx.steps += 1
        try:
            fn()
            ctx.violation(f"constructor case {k} accepted", {"case": k})
        except cls:
            pass


def run(ctx):
    for n, log in enumerate(ctx.explore("Samplers", 5 if ctx.quick else 7, CONST)):
        w = World(dict(log[0]["cfg"], w=[], idx=[]), n, 1)
        ctx.traces += 1
        for x in log[1:]:
            ctx.steps += 1
            if x["op"]["k"] == "reset":
                w.reset()
                continue
            got = w.draw(x["op"]["num"])
            if got["r"] != x["out"]["r"] or (got["r"] == "ok" and got["rows"] != x["out"]["rows"]):
                ctx.violation(f"draw: specified {x['out']}, got {got}", {"log": log})
                break
        if ctx.too_many():
            return
    constructors(ctx)
    traces = [random_trace(ctx.rng, n, n) for n in range(3000 if ctx.quick else 30000)]
    traces += pointings(ctx)
    ctx.steps += sum(len(t["ev"]) for t in traces)
    for t, bad in zip(traces, ctx.accept("Samplers", traces, CONST)):
        if bad:
            ctx.violation(bad["clause"], {"cfg": t["cfg"], "event": str(t["ev"][bad["i"]])[:2000], "trace": t["ev"][:bad["i"] + 1] if len(str(t["ev"])) < 20000 else []})
    ctx.sample(traces[0])
