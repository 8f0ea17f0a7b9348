"""Binds specs/ParamGraph.tla to ParameterizedNode / FunctionNode graphs (properties P03 and P04)."""

import numpy as np
from lightcurvelynx.base_models import FunctionNode, ParameterizedNode
from lightcurvelynx.graph_state import GraphState
from lightcurvelynx.effects.effect_model import EffectModel
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel
from lightcurvelynx.models.physical_model import SEDModel

from vlib.core import aslist

CONST = {"MaxNodes": 3, "MCSamples": {1, 2}}
FNR = "function_node_result"
BASE = ["ra", "dec", "redshift", "t0", "distance"]


# How the specification's integers are represented as parameter values. Only graphs without functions can use others.
CODES = {
    "num": None,
    "text": (lambda v: f"v{v}", lambda x: int(str(x)[1:])),
    "pair": (lambda v: [v, v + 1], lambda x: int(np.asarray(x)[0]) if np.asarray(x).shape == (2,) and x[1] == x[0] + 1 else repr(x)),
    "array": (lambda v: np.array([v, v + 1.0]), lambda x: int(np.asarray(x)[0]) if np.asarray(x).shape == (2,) and x[1] == x[0] + 1 else repr(x)),
    "dict": (lambda v: {"v": v}, lambda x: x["v"]),
}


class World:
    """Real nodes, numbered as in the specification."""

    def __init__(self, style=0, code="num"):
        self.code = CODES[code]
        self.nodes = [None]
        self.meta = [None]  # [kind, par names, outs]
        self.calls = {}
        self.style = style
        self.dirty = True
        self.numbered = None

    def source(self, name, src):
        """The Python value that expresses the source `src` of parameter `name`."""
        t = src["t"]
        self.style += 1
        if self.code and t == "const":
            return self.code[0](src["v"])
        if t == "const":
            return [src["v"], float(src["v"]), np.int64(src["v"])][self.style % 3]
        if t == "call":
            v = self.code[0](src["v"]) if self.code else src["v"]
            return lambda: v
        node = self.nodes[src["n"]]
        if t == "same":
            return node
        if t == "method":
            return node.list_params
        kind, _, outs = self.meta[src["n"]]
        p = src["p"]
        if kind in ("func", "list") and self.style % 2 and (p == name if name in outs else p == FNR):
            return node  # the function node itself
        if kind not in ("func", "list") and self.style % 2 and p == name:
            return node  # same-named parameter of the node
        return getattr(node, p)

    def make(self, op):
        idx = len(self.nodes)
        label = op["label"] or None
        pars = {x["name"]: x["src"] for x in aslist(op["pars"])}
        outs = aslist(op["outs"])
        if op["kind"] == "param":
            node = ParameterizedNode(node_label=label)
            self.nodes.append(node)
            self.meta.append(["param", list(pars), []])
            for name, src in pars.items():
                node.add_parameter(name, self.source(name, src))
        elif op["kind"] in ("model", "group"):
            base = {name: self.source(name, pars.pop(name)) for name in BASE}
            if op["kind"] == "model":
                node = SEDModel(node_label=label, **base)
            else:
                members = [self.nodes[m] for m in aslist(op["mem"])]
                node = AdditiveMultiObjectModel(members, node_label=label, **base)
            self.nodes.append(node)
            self.meta.append([op["kind"], list(BASE), []])
            for name, src in pars.items():
                node.add_parameter(name, self.source(name, src))
                self.meta[-1][1].append(name)
        elif op["kind"] == "list":
            node = GivenValueList([self.code[0](v) if self.code else int(v) for v in op["vals"]], node_label=label)
            self.nodes.append(node)
            self.meta.append(["list", [], outs])
        else:
            names = list(pars)
            many = len(outs) > 1
            self.calls[idx] = 0

            def func(**kw):
                self.calls[idx] += 1
                res = [(sum((k + 1 + j) * kw[a] for k, a in enumerate(names)) + j) % 97 for j in range(1, len(outs) + 1)]
                return res if many else res[0]

            node = FunctionNode(func, node_label=label, outputs=None if outs == [FNR] else outs,
                                **{name: self.source(name, src) for name, src in pars.items()})
            self.nodes.append(node)
            self.meta.append(["func", names, outs])
        return {"r": "ok"}

    def number(self, root):
        """Assign positions; the documentation asks for it after the structure below a root changed."""
        if self.dirty or self.numbered != root or self.style % 3 == 0:
            self.nodes[root].set_graph_positions()
            self.dirty, self.numbered = False, root

    def step(self, op):
        self.style += 1
        try:
            return getattr(self, "do_" + op["k"])(op)
        except (KeyError, ValueError, IndexError) as e:
            return {"r": type(e).__name__}
        except Exception as e:  # noqa: BLE001
            return {"r": f"{type(e).__name__}: {e}"}

    def do_mk(self, op):
        self.dirty = True
        return self.make(op)

    def do_set(self, op):
        self.dirty = True
        src = op["src"]
        value = self.nodes[op["n"]] if src["t"] == "self" else self.source(op["name"], src)
        if self.style % 5 == 0 and src["t"] == "const":
            self.nodes[op["n"]].set_parameter(op["name"], **{op["name"]: value})
        else:
            self.nodes[op["n"]].set_parameter(op["name"], value)
        return {"r": "ok"}

    def do_add(self, op):
        self.dirty = True
        src = op["src"]
        value = self.nodes[op["n"]] if src["t"] == "self" else self.source(op["name"], src)
        self.nodes[op["n"]].add_parameter(op["name"], value)
        self.meta[op["n"]][1].append(op["name"])
        return {"r": "ok"}

    def do_eff(self, op):
        self.dirty = True
        effect = EffectModel(rest_frame=op["rest"], effect_name="e")
        effect.add_effect_parameter(op["name"], self.source(op["name"], op["src"]))
        self.nodes[op["n"]].add_effect(effect)
        for node, meta in zip(self.nodes, self.meta):
            if meta and meta[0] in ("model", "group") and op["name"] in node.setters and op["name"] not in meta[1]:
                meta[1].append(op["name"])
        return {"r": "ok"}

    def do_grad(self, op):
        self.nodes[op["n"]].set_allow_gradient(op["name"], op["b"])
        return {"r": "ok"}

    def do_reset(self, op):
        self.nodes[op["n"]].reset()
        return {"r": "ok"}

    def run_sample(self, op):
        root = self.nodes[op["root"]]
        self.number(op["root"])
        args = {}
        num = op["num"]
        for k, o in enumerate(aslist(op["over"])):
            vals = [int(v) for v in o["vals"]]
            if self.code:
                v = [self.code[0](x) for x in vals]
                v = v[0] if num == 1 else np.array(v)
            elif num == 1:
                v = vals[0]
            elif len(set(vals)) == 1 and (self.style + k) % 2:
                v = vals[0]
            else:
                v = np.array(vals)
            args.setdefault(self.nodes[o["n"]].node_string, {})[o["p"]] = v
        for k in self.calls:
            self.calls[k] = 0
        if args and self.style % 3 == 0:
            # The same overrides as a GraphState (one sample is enough if the values are the same for all).
            short = num > 1 and all(np.ndim(v) == 0 for d in args.values() for v in d.values())
            given = GraphState(1 if short else num)
            for node, d in args.items():
                for p, v in d.items():
                    given.set(node, p, v, fixed=self.style % 2 == 0)
            args = given
        return root.sample_parameters(given_args=args or None, num_samples=num)

    def do_sample(self, op):
        state = self.run_sample(op)
        reach = self.reach(op["root"])
        out = []
        for n in reach:
            kind, pars, outs = self.meta[n]
            name = str(self.nodes[n])
            entry = {"n": n, "calls": self.calls.get(n, 0), "pars": []}
            for p in pars + outs:
                entry["pars"].append({"name": p, "vals": self.vals(state[f"{name}.{p}"], op["num"])})
                # The node's own accessors agree with the state.
                if self.vals(self.nodes[n].get_param(state, p), op["num"]) != entry["pars"][-1]["vals"]:
                    entry["pars"][-1]["get_param"] = "differs"
            out.append(entry)
        extra = [n for n, c in self.calls.items() if c and n not in reach]
        if extra:
            out.append({"unreachable nodes evaluated": extra})
        return {"r": "state", "num": state.num_samples, "nodes": out}

    def vals(self, v, num):
        if self.code:
            try:
                return [self.code[1](v)] if num == 1 else [self.code[1](x) for x in v]
            except Exception:  # noqa: BLE001
                return ["?" + repr(v)]
        if num == 1:
            return [int(v)] if np.ndim(v) == 0 and float(v) == int(v) else ["?" + repr(v)]
        if np.ndim(v) != 1:
            return ["?" + repr(v)]
        return [int(x) if float(x) == int(x) else "?" + repr(x) for x in v]

    def reach(self, root):
        """Nodes reachable from root, from the real wiring as the user sees it (dependencies of the parameters)."""
        byid = {id(n): k for k, n in enumerate(self.nodes) if n is not None}
        seen, todo = set(), [self.nodes[root]]
        while todo:
            n = todo.pop()
            if id(n) in seen:
                continue
            seen.add(id(n))
            todo.extend(getattr(n, "objects", []))
            for setter in n.setters.values():
                if setter.dependency is not None:
                    todo.append(setter.dependency)
        return sorted(byid[i] for i in seen if i in byid)

    def do_deps(self, op):
        self.number(op["root"])
        g = self.nodes[op["root"]].build_dependency_graph()
        full = {}
        for n in self.reach(op["root"]):
            for p in self.meta[n][1] + self.meta[n][2]:
                full[f"{self.nodes[n]}.{p}"] = [n, p]
        pars = [full[x] for x in g.all_params if x in full]
        edges, consts, odd = [], [], []
        for name, ref in full.items():
            for src in g.incoming.get(name, []):
                if src in full:
                    edges.append(full[src] + ref)
                else:
                    consts.append(ref)
                if name not in g.outgoing.get(src, []):
                    odd.append(f"no outgoing edge {src} -> {name}")
            if name not in g:
                odd.append(f"{name} not in graph")
        for src, tos in g.outgoing.items():
            for to in tos:
                if src not in g.incoming.get(to, []):
                    odd.append(f"no incoming edge {src} -> {to}")
        if len(g) != len(g.all_params):
            odd.append("len")
        r = {"r": "deps", "pars": pars, "edges": edges, "consts": consts}
        if odd:
            r["odd"] = odd
        return r

    def do_tree(self, op):
        self.number(op["root"])
        root = self.nodes[op["root"]]
        saved = [(n, n.next_ind) for n in self.nodes if isinstance(n, GivenValueList)]
        for n, _ in saved:
            n.reset()
        state = root.sample_parameters(num_samples=1)
        for n, ind in saved:
            n.next_ind = ind
        tree = root.build_pytree(state)
        names = {str(self.nodes[n]): n for n in self.reach(op["root"])}
        pars = []
        for node, entries in tree.items():
            for p, v in entries.items():
                ok = node in names and self.vals(v, 1) == self.vals(state[node][p], 1)
                pars.append([names.get(node, node), p] if ok else [node, p, "wrong value"])
        return {"r": "tree", "pars": pars}

    def do_names(self, op):
        self.nodes[op["root"]].set_graph_positions()
        self.dirty, self.numbered = False, op["root"]
        reach = self.reach(op["root"])
        labels = []
        for n in reach:
            want = self.nodes[n].node_label or ""
            labels.append({"n": n, "label": str(self.nodes[n]) if want else ""})
        r = {"r": "names", "labels": labels}
        auto = [str(self.nodes[n]) for n in reach if not self.nodes[n].node_label]
        if len(set(auto)) != len(auto):
            r["duplicates"] = auto
        return r

    def do_params(self, op):
        return {"r": "params", "names": list(self.nodes[op["n"]].list_params())}


def canon(x):
    if isinstance(x, dict):
        y = {}
        for k, v in x.items():
            if k in ("edges", "consts") or (k == "pars" and x.get("r") in ("deps", "tree")):
                y[k] = sorted((list(e) for e in aslist(v)), key=repr)
            elif k == "pars":
                y[k] = sorted((canon(e) for e in aslist(v)), key=lambda e: e["name"])
            else:
                y[k] = canon(v)
        return y
    if isinstance(x, list):
        return [canon(v) for v in x]
    return x


def replay(ctx, ops, outs, style, code="num"):
    w = World(style, code)
    for i, (op, out) in enumerate(zip(ops, outs)):
        ctx.steps += 1
        got = w.step(op)
        if out["r"] == "AnyError" and got["r"] in ("ValueError", "IndexError"):
            return True
        if canon(got) != canon(out):
            ctx.violation(f"{op['k']}: specified {canon(out)}, got {canon(got)}", {"ops": ops[:i + 1], "style": style, "code": code})
            return False
        if op["k"] == "sample" and out["r"] != "state":
            # How far the lists were read before the rejection is not specified: the history ends here.
            return True
    return True


def replay_mc(ctx, logs):
    for n, log in enumerate(logs):
        replay(ctx, [x["op"] for x in log[1:]], [x["out"] for x in log[1:]], n)
        ctx.traces += 1
        if ctx.too_many():
            return
    if logs:
        ctx.sample([x["op"] for x in logs[len(logs) // 2][1:]])


class Gen:
    """Random valid histories of graph building, editing, sampling and reporting."""

    def __init__(self, rng, edits, labels, maxn=8, code="num", models=False):
        self.models = models
        self.rng, self.edits, self.labels, self.maxn, self.funcs = rng, edits, labels, maxn, code == "num"
        # The result of a function is taken as one entry per sample unless it is a number or text.
        self.calls = code in ("num", "text")
        self.nodes = []  # per node: kind, pars {name: src}, outs, private owner
        self.ops = []

    def targets(self, upto):
        t = []
        for n, nd in enumerate(self.nodes[:upto], 1):
            if nd["private"]:
                continue
            for p in list(nd["pars"]) + nd["outs"]:
                t.append({"t": "ref", "v": 0, "n": n, "p": p})
        return t

    def source(self, upto, own=()):
        r = self.rng
        t = self.targets(upto)
        x = r.random()
        if own and x < 0.12:
            return {"t": "ref", "v": 0, "n": upto + 1, "p": r.choice(own)}
        if x < 0.25 or not t:
            return {"t": "const", "v": r.randrange(1, 90), "n": 0, "p": ""}
        if x < 0.3 and self.calls:
            return {"t": "call", "v": r.randrange(1, 90), "n": 0, "p": ""}
        # Prefer recent nodes so that graphs get deep, but keep diamonds likely.
        return dict(r.choice(t[-6:] if r.random() < 0.6 else t))

    def label(self):
        r = self.rng
        x = r.random()
        if x < 0.6:
            return ""
        if x < 0.6 + self.labels:
            return r.choice(["dup", "other"])
        return f"lab{len(self.nodes)}"

    def mk(self):
        r = self.rng
        n = len(self.nodes)
        x = r.random()
        if n == 0 or x < 0.2:
            vals = [r.randrange(1, 90) for _ in range(r.choice([4, 24, 40, 40, 60]))]
            nd = dict(kind="list", pars={}, outs=[FNR], private=False)
            op = {"k": "mk", "kind": "list", "label": self.label(), "pars": [], "outs": [FNR], "vals": vals}
        elif self.models and x < 0.6:
            pars = {}
            for name in BASE + r.sample(["x", "y", "z", "w"], r.randrange(0, 3)):
                pars[name] = self.source(n, own=() if name in BASE else list(pars))
            have = [m for m, nd in enumerate(self.nodes, 1) if nd["kind"] in ("model", "group")]
            kind = r.choice(["model", "group"]) if have else "model"
            mem = [r.choice(have) for _ in range(r.choice([1, 2, 2, 3]))] if kind == "group" else []
            nd = dict(kind=kind, pars=pars, outs=[], private=False, mem=mem)
            op = {"k": "mk", "kind": kind, "label": self.label(), "pars": [{"name": k, "src": v} for k, v in pars.items()], "outs": [], "vals": [], "mem": mem}
        elif x < 0.6 or not self.funcs:
            pars = {}
            for name in r.sample(["x", "y", "z", "w"], r.randrange(1, 5)):
                # A reference into the own node is only possible to an earlier parameter.
                pars[name] = self.source(n, own=list(pars))
            nd = dict(kind="param", pars=pars, outs=[], private=False)
            op = {"k": "mk", "kind": "param", "label": self.label(), "pars": [{"name": k, "src": v} for k, v in pars.items()], "outs": [], "vals": []}
        else:
            pars = {name: self.source(n) for name in r.sample(["x", "y", "z"], r.randrange(1, 4))}
            outs = r.choice([[FNR], [FNR], ["a"], ["a", "b"], ["a", "b", "c"], ["x2", "w"]])
            nd = dict(kind="func", pars=pars, outs=outs, private=False)
            op = {"k": "mk", "kind": "func", "label": self.label(), "pars": [{"name": k, "src": v} for k, v in pars.items()], "outs": outs, "vals": []}
        self.nodes.append(nd)
        self.ops.append({"mem": [], **op})

    def root(self):
        r = self.rng
        return len(self.nodes) if r.random() < 0.6 else r.randrange(1, len(self.nodes) + 1)

    def reach(self, root):
        seen, todo = set(), [root]
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            todo += [s["n"] for s in self.nodes[n - 1]["pars"].values() if s["t"] == "ref"] + self.nodes[n - 1].get("mem", [])
        return sorted(seen)

    def sample(self):
        r = self.rng
        root, num = self.root(), r.choice([1, 1, 2, 3, 5])
        over, used = [], set()
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            n = r.choice(self.reach(root))
            p = r.choice(list(self.nodes[n - 1]["pars"]) + self.nodes[n - 1]["outs"])
            if (n, p) not in used:
                used.add((n, p))
                same = r.random() < 0.4
                base = r.randrange(100, 200)
                over.append({"n": n, "p": p, "vals": [base if same else base + 3 * i for i in range(num)]})
        self.ops.append({"k": "sample", "root": root, "num": num, "over": over})

    def effect(self):
        r = self.rng
        have = [n for n, nd in enumerate(self.nodes, 1) if nd["kind"] in ("model", "group")]
        if not have:
            return
        n, rest, name = r.choice(have), r.random() < 0.6, r.choice(["x", "y", "e1", "e1", "e2"])

        def takers(m):
            nd = self.nodes[m - 1]
            return set().union(*(takers(k) for k in nd["mem"])) if rest and nd["kind"] == "group" else {m}

        src = self.source(min(takers(n)) - 1)
        if src["t"] == "call":
            src = {"t": "const", "v": 7, "n": 0, "p": ""}
        self.ops.append({"k": "eff", "n": n, "rest": rest, "name": name, "src": src})
        for m in takers(n):
            self.nodes[m - 1]["pars"].setdefault(name, src)

    def edit(self):
        r = self.rng
        if self.models and r.random() < 0.3:
            return self.effect()
        cand = [n for n, nd in enumerate(self.nodes, 1) if nd["pars"]]
        if not cand:
            return
        n = r.choice(cand)
        nd = self.nodes[n - 1]
        x = r.random()
        good = lambda: self.source(n - 1)  # noqa: E731
        bad = [{"t": "method", "v": 0, "n": r.randrange(1, len(self.nodes) + 1), "p": ""}]
        if nd["kind"] not in ("func", "list"):
            bad.append({"t": "self", "v": 0, "n": n, "p": ""})
        others = [m for m in range(1, n) if self.nodes[m - 1]["kind"] not in ("func", "list")]
        if x < 0.5:
            name = r.choice(list(nd["pars"]))
            # Nothing earlier in the own node may depend on a later parameter, so only earlier nodes are used.
            src = good()
            self.ops.append({"k": "set", "n": n, "name": name, "src": src})
            nd["pars"][name] = src
        elif x < 0.6:
            self.ops.append({"k": "set", "n": n, "name": "nope", "src": good()})
        elif x < 0.72:
            self.ops.append({"k": "set", "n": n, "name": r.choice(list(nd["pars"])), "src": r.choice(bad)})
        elif x < 0.8 and others:
            m = r.choice(others)
            name = r.choice(list(nd["pars"]))
            self.ops.append({"k": "set", "n": n, "name": name, "src": {"t": "same", "v": 0, "n": m, "p": ""}})
            if name in self.nodes[m - 1]["pars"]:
                nd["pars"][name] = {"t": "ref", "v": 0, "n": m, "p": name}
        elif nd["kind"] not in ("func", "list"):
            name = r.choice(["p1", "p2", "p3", "x", "y", "setters", "node_label", "list_params", "sample_parameters"])
            src = r.choice(bad) if r.random() < 0.25 else good()
            self.ops.append({"k": "add", "n": n, "name": name, "src": src})
            if name not in nd["pars"] and name.startswith("p") and src["t"] not in ("method", "self"):
                nd["pars"][name] = src

    def history(self, length):
        r = self.rng
        for _ in range(r.randrange(2, self.maxn)):
            self.mk()
        while len(self.ops) < length:
            x = r.random()
            if x < 0.1 and len(self.nodes) < self.maxn + 2:
                self.mk()
            elif x < 0.1 + self.edits * 0.5:
                self.edit()
            elif self.edits and x < 0.7:
                k = r.choice(["deps", "tree", "names", "params", "grad"])
                if k == "grad":
                    cand = [n for n, nd in enumerate(self.nodes, 1) if nd["pars"]]
                    if cand:
                        n = r.choice(cand)
                        self.ops.append({"k": "grad", "n": n, "name": r.choice(list(self.nodes[n - 1]["pars"])), "b": r.random() < 0.5})
                elif k == "params":
                    self.ops.append({"k": "params", "n": r.randrange(1, len(self.nodes) + 1)})
                elif k == "names" or not self.labels:
                    self.ops.append({"k": k, "root": self.root()})
            elif x < 0.75:
                lists = [n for n, nd in enumerate(self.nodes, 1) if nd["kind"] == "list"]
                self.ops.append({"k": "reset", "n": r.choice(lists)})
            else:
                self.sample()
        return self.ops


def random_histories(ctx, count, length, edits, labels):
    scripts, codes = [], []
    for k in range(count):
        # Every fourth graph has parameters that are no numbers.
        codes.append("num" if k % 4 else ["text", "pair", "array", "dict"][k // 4 % 4])
        scripts.append({"cfg": {"c": 0}, "ops": Gen(ctx.rng, edits, labels, code=codes[-1], models=k % 3 == 1).history(length)})
    logs = ctx.oracle("ParamGraph", scripts, CONST)
    for n, (script, log) in enumerate(zip(scripts, logs)):
        replay(ctx, script["ops"], [x["out"] for x in log[1:]], n, codes[n])
        ctx.traces += 1
        if ctx.too_many():
            return
    ctx.sample({"script": scripts[0]["ops"], "spec_outcome": logs[0][-1]["out"]})
