"""Binds specs/GraphStore.tla to lightcurvelynx.graph_state.GraphState (properties P01 and P02)."""

import json
import os
import shutil
import tempfile

import numpy as np
from lightcurvelynx.graph_state import GraphState

from vlib.core import aslist

CONST = {"NSlots": 2, "MCNodes": {"a", "b"}, "MCPars": {"x", "y"}, "MCVals": {"5"}, "MCSizes": {1, 2},
         "MCKinds": {"new"}}
STR = {"s", "t"}  # parameters that hold text


def py(v, par):
    """The Python value of an abstract value."""
    return f"txt{v}" if par in STR else int(v)


def un(v):
    """The abstract value of a Python value."""
    if isinstance(v, str):
        return v[3:] if v.startswith("txt") else "?" + v
    try:
        f = float(v)
        return str(int(f)) if f == int(f) else "?" + repr(v)
    except Exception:  # noqa: BLE001
        return "?" + repr(v)


def value(op, style):
    par = op["par"]
    if op["val"]["k"] == "sc":
        v = py(op["val"]["v"], par)
        return np.float64(v) if style % 3 == 1 and par not in STR else (float(v) if style % 3 == 2 and par not in STR else v)
    vals = [py(v, par) for v in op["val"]["v"]]
    return vals if style % 3 == 1 else np.array(vals)


def vals_of(v, n):
    """The values of one parameter as a list with one entry per sample."""
    if n == 1:
        if np.ndim(v) != 0:
            return ["not a scalar: " + repr(v)]
        return [un(v)]
    if np.ndim(v) != 1:
        return ["not an array: " + repr(v)]
    return [un(x) for x in v]


def project(g):
    """The abstract state of a GraphState through its public interface."""
    if g is None:
        return {"n": 0, "e": []}
    entries = []
    fixed = getattr(g, "fixed_vars", {})
    names = g.get_all_params_names()
    for full in names:
        node, par = full.split(".")
        entries.append({"node": node, "par": par, "vals": vals_of(g[full], g.num_samples), "fx": par in fixed.get(node, ())})
    if len(g) != len(names):
        entries.append({"len": len(g), "names": len(names)})
    return {"n": int(g.num_samples), "e": entries}


def key_str(key):
    return {"node": lambda: key["node"], "full": lambda: key["node"] + "." + key["par"], "short": lambda: key["par"]}[key["k"]]()


class World:
    """The slots of the specification, as real GraphState objects."""

    def __init__(self, cfg, style=0, always_copy=False):
        self.slots = [None] * (cfg["slots"] + 1)
        self.style = style
        self.always_copy = always_copy
        self.tmp = None
        for op in cfg["pre"]:
            self.step(op)

    def close(self):
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def put(self, op, g):
        self.slots[op["d"]] = g
        return {"r": "ok"}

    def step(self, op):
        self.style += 1
        try:
            return getattr(self, "do_" + op["k"])(op)
        except (KeyError, ValueError) as e:
            return {"r": type(e).__name__}
        except Exception as e:  # noqa: BLE001
            return {"r": f"{type(e).__name__}: {e}"}

    def copy_flag(self):
        return self.always_copy or self.style % 2 == 0

    def do_new(self, op):
        return self.put(op, GraphState(num_samples=op["n"]))

    def do_set(self, op):
        self.slots[op["d"]].set(op["node"], op["par"], value(op, self.style), force_copy=self.copy_flag() and
                                not isinstance(value(op, self.style), int | float | str), fixed=op["fx"])
        return {"r": "ok"}

    def do_update(self, op):
        self.slots[op["d"]].update(self.slots[op["a"]], force_copy=self.copy_flag(), all_fixed=op["fx"])
        return {"r": "ok"}

    def do_updict(self, op):
        inputs = {}
        for it in op["items"]:
            inputs.setdefault(it["node"], {})[it["par"]] = value(it, self.style)
        try:
            self.slots[op["d"]].update(inputs, force_copy=self.copy_flag(), all_fixed=op["fx"])
        except ValueError:
            return {"r": "abort"}
        return {"r": "ok"}

    def do_poke(self, op):
        self.slots[op["d"]][op["node"] + "." + op["par"]][op["i"] - 1] = py(op["v"], op["par"])
        return {"r": "ok"}

    def do_copy(self, op):
        return self.put(op, self.slots[op["a"]].copy())

    def do_slice(self, op):
        return self.put(op, self.slots[op["a"]].extract_single_sample(op["i"] - 1))

    def do_iter(self, op):
        return {"r": "states", "states": [project(g) for g in self.slots[op["a"]]]}

    def do_nodestate(self, op):
        vals = self.slots[op["a"]].get_node_state(op["node"], op["i"] - 1)
        return {"r": "node", "items": [{"par": p, "vals": vals_of(v, 1)} for p, v in vals.items()]}

    def do_concat(self, op):
        src = [self.slots[a] for a in op["src"]]
        if self.style % 3 == 0:
            # Single sample states may also be given as (flat) dictionaries.
            src = [g.to_dict() if g.num_samples == 1 else g for g in src]
        return self.put(op, GraphState.from_list(src))

    def do_trip(self, op):
        g = self.slots[op["a"]]
        if op["via"] == "table":
            return self.put(op, GraphState.from_table(g.to_table()))
        if op["via"] == "dict":
            return self.put(op, GraphState.from_dict(g.to_dict(), num_samples=g.num_samples))
        if op["via"] == "nested":
            flat = g.to_dict()
            nested = {}
            for k, v in flat.items():
                node, par = k.split(".")
                nested.setdefault(node, {})[par] = v
            return self.put(op, GraphState.from_dict(nested, num_samples=g.num_samples))
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix="vgs_")
        path = os.path.join(self.tmp, "s.ecsv")
        g.save_to_file(path, overwrite=True)
        return self.put(op, GraphState.from_file(path))

    def do_eq(self, op):
        a, d = self.slots[op["a"]], self.slots[op["d"]]
        eq, back = a == d, d == a
        return {"r": "bool", "b": bool(eq) if eq == back else "asymmetric"}

    def do_contains(self, op):
        return {"r": "bool", "b": key_str(op["key"]) in self.slots[op["d"]]}

    def do_get(self, op):
        g = self.slots[op["d"]]
        r = g[key_str(op["key"])]
        if op["key"]["k"] == "node":
            return {"r": "node", "items": [{"par": p, "vals": vals_of(v, g.num_samples), "node": op["key"]["node"]} for p, v in r.items()]}
        return {"r": "vals", "vals": vals_of(r, g.num_samples)}

    def do_extract(self, op):
        g = self.slots[op["d"]]
        names = [key_str(x) for x in op["names"]]
        r = g.extract_parameters(names[0] if len(names) == 1 and self.style % 2 else names)
        return {"r": "items", "items": [{"name": k, "vals": vals_of(v, g.num_samples)} for k, v in r.items()]}


def canon(x):
    """Order-insensitive form of outcomes and states (entries are a set)."""
    if isinstance(x, dict):
        y = {k: canon(v) for k, v in x.items()}
        for k in ("e", "items"):
            if k in y:
                y[k] = sorted(aslist(y[k]), key=lambda v: json.dumps(v, sort_keys=True))
        return y
    if isinstance(x, list):
        return [canon(v) for v in x]
    return x


def replay(ctx, cfg, steps, style, always_copy=False):
    """Run one behaviour of the specification on the code; report the first difference."""
    w = World(cfg, style, always_copy)
    try:
        trace = []
        for op, out, obs in steps:
            ctx.steps += 1
            got = w.step(op)
            trace.append(op)
            if canon(got) != canon(out):
                ctx.violation(f"outcome of {op['k']}: specified {canon(out)}, got {canon(got)}",
                              {"cfg": cfg, "ops": trace})
                return False
            if out["r"] == "abort":
                break
            for d, spec_slot in enumerate(aslist(obs)):
                real = canon(project(w.slots[d + 1]))
                if real != canon(spec_slot):
                    ctx.violation(f"state of slot {d + 1} after {op['k']}: specified {canon(spec_slot)}, got {real}",
                                  {"cfg": cfg, "ops": trace})
                    return False
        return True
    except Exception as e:  # noqa: BLE001
        ctx.violation(f"unexpected {type(e).__name__}: {e}", {"cfg": cfg, "ops": trace})
        return False
    finally:
        w.close()


def replay_mc(ctx, logs):
    for n, log in enumerate(logs):
        replay(ctx, log[0]["cfg"], [(x["op"], x["out"], x["obs"]) for x in log[1:]], n)
        ctx.traces += 1
        if ctx.too_many():
            return
    if logs:
        ctx.sample(logs[len(logs) // 2])


class Gen:
    """Random histories (valid operations; the specification decides the outcomes)."""

    NODES = ["a", "b", "c"]
    PARS = ["x", "y", "s", "z"]

    def __init__(self, rng, weights, poke, slots=3, sizes=(1, 1, 2, 3, 4)):
        self.rng, self.weights, self.poke, self.slots, self.sizes = rng, weights, poke, slots, sizes
        self.n = [0] * (slots + 1)
        self.keys = [set() for _ in range(slots + 1)]

    def val(self, n, par):
        r = self.rng
        if n > 1 and r.random() < 0.6:
            m = n if r.random() < 0.9 else r.choice([x for x in (1, 2, 3, 4, 5) if x != n])
            return {"k": "arr", "v": [str(r.randrange(1, 90)) for _ in range(m)]}
        return {"k": "sc", "v": str(r.randrange(1, 90))}

    def key(self, d):
        r = self.rng
        if self.keys[d] and r.random() < 0.7:
            node, par = r.choice(sorted(self.keys[d]))
        else:
            node, par = r.choice(self.NODES), r.choice(self.PARS)
        return r.choice([{"k": "node", "node": node}, {"k": "full", "node": node, "par": par}, {"k": "short", "par": par}])

    def history(self, length):
        r = self.rng
        ops = []
        for d in range(1, self.slots):
            ops.append({"k": "new", "d": d, "n": r.choice(self.sizes)})
            self.n[d] = ops[-1]["n"]
        kinds = list(self.weights)
        while len(ops) < length:
            k = r.choices(kinds, [self.weights[x] for x in kinds])[0]
            live = [d for d in range(1, self.slots + 1) if self.n[d]]
            d, a = r.choice(live), r.choice(live)
            dest = r.randrange(1, self.slots + 1)
            if k == "new":
                n = r.choice(self.sizes) if r.random() < 0.9 else 0
                ops.append({"k": "new", "d": dest, "n": n})
                if n:
                    self.n[dest], self.keys[dest] = n, set()
            elif k == "set":
                node, par = r.choice(self.NODES), r.choice(self.PARS)
                if r.random() < 0.05:
                    node = "a.b"
                if r.random() < 0.05:
                    par = "x.y"
                val = self.val(self.n[d], par)
                ops.append({"k": "set", "d": d, "node": node, "par": par, "val": val, "fx": r.random() < 0.2})
                if "." not in node + par and (val["k"] == "sc" or len(val["v"]) == self.n[d]):
                    self.keys[d].add((node, par))
            elif k == "update":
                ops.append({"k": "update", "d": d, "a": a, "fx": r.random() < 0.2})
                if self.n[a] in (1, self.n[d]):
                    self.keys[d] |= self.keys[a]
            elif k == "updict":
                items = []
                for node, par in {(r.choice(self.NODES), r.choice(self.PARS)) for _ in range(r.randrange(1, 4))}:
                    items.append({"node": node, "par": par, "val": self.val(self.n[d], par)})
                items.sort(key=lambda x: (x["node"], x["par"]))
                ops.append({"k": "updict", "d": d, "items": items, "fx": r.random() < 0.3})
                if any(it["val"]["k"] == "arr" and len(it["val"]["v"]) != self.n[d] for it in items):
                    return ops  # may be rejected half-way: the history ends here
                self.keys[d] |= {(it["node"], it["par"]) for it in items}
            elif k == "poke":
                if self.poke and self.n[d] > 1 and self.keys[d]:
                    node, par = r.choice(sorted(self.keys[d]))
                    if par not in STR:
                        ops.append({"k": "poke", "d": d, "node": node, "par": par, "i": r.randrange(1, self.n[d] + 1), "v": str(r.randrange(100, 190))})
            elif k == "copy":
                ops.append({"k": "copy", "d": dest, "a": a})
                self.n[dest], self.keys[dest] = self.n[a], set(self.keys[a])
            elif k == "slice":
                i = r.randrange(0, self.n[a] + 2)
                ops.append({"k": "slice", "d": dest, "a": a, "i": i})
                if 1 <= i <= self.n[a]:
                    self.n[dest], self.keys[dest] = 1, set(self.keys[a])
            elif k == "iter":
                ops.append({"k": "iter", "a": a})
            elif k == "nodestate":
                node = r.choice(self.NODES)
                ops.append({"k": "nodestate", "a": a, "node": node, "i": r.randrange(0, self.n[a] + 2)})
            elif k == "concat":
                same = [x for x in live if self.keys[x] == self.keys[a]]
                src = [r.choice(same if r.random() < 0.8 else live) for _ in range(r.randrange(0 if r.random() < 0.1 else 1, 4))]
                total = sum(self.n[x] for x in src)
                if total > 12 or (src and not self.keys[src[0]]):
                    continue
                ops.append({"k": "concat", "d": dest, "src": src})
                if src and all(self.keys[x] == self.keys[src[0]] for x in src):
                    self.n[dest], self.keys[dest] = total, set(self.keys[src[0]])
            elif k == "trip":
                if not self.keys[a]:
                    continue
                ops.append({"k": "trip", "d": dest, "a": a, "via": r.choice(["table", "dict", "nested", "file"])})
                self.n[dest], self.keys[dest] = self.n[a], set(self.keys[a])
            elif k == "eq":
                ops.append({"k": "eq", "d": d, "a": a})
            elif k == "contains":
                ops.append({"k": "contains", "d": d, "key": self.key(d)})
            elif k == "get":
                ops.append({"k": "get", "d": d, "key": self.key(d)})
            elif k == "extract":
                names = [x for x in (self.key(d) for _ in range(r.randrange(1, 4))) if x["k"] != "node"]
                if names:
                    ops.append({"k": "extract", "d": d, "names": names})
        return ops


def random_histories(ctx, count, length, weights, poke):
    scripts = []
    for _ in range(count):
        g = Gen(ctx.rng, weights, poke)
        scripts.append({"cfg": {"slots": g.slots, "pre": []}, "ops": g.history(length)})
    logs = ctx.oracle("GraphStore", scripts, CONST)
    for n, (script, log) in enumerate(zip(scripts, logs)):
        steps = [(op, x["out"], x["obs"]) for op, x in zip(script["ops"], log[1:])]
        replay(ctx, script["cfg"], steps, n, always_copy=poke)
        ctx.traces += 1
        if ctx.too_many():
            return
    ctx.sample({"script": scripts[0], "spec_log_tail": logs[0][-1]})
