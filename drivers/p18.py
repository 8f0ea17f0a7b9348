"""P18: expression nodes (spec: MathExpr)."""

import warnings
from fractions import Fraction

import jax
import numpy as np
from lightcurvelynx.base_models import ParameterizedNode
from lightcurvelynx.math_nodes.basic_math_node import BasicMathNode
from lightcurvelynx.math_nodes.given_sampler import GivenValueList

from vlib.core import aslist

jax.config.update("jax_enable_x64", True)
warnings.simplefilter("ignore")

# Constructs that are not arithmetic; $ is the text of a valid expression.
BAD = {
    "attr": "($).real", "method": "($).sum()", "dunder": "($).__class__", "index": "($)[0]", "slice": "($)[0:1]",
    "lambda": "(lambda: $)()", "listcomp": "[q for q in ($,)]", "gencomp": "sum(q for q in ($,))", "compare": "($) < 1",
    "chain": "0 < ($) < 2", "boolop": "(($) and 1)", "not": "(not $)", "ifexp": "(1 if $ else 2)", "list": "[$]", "tuple": "($, 1)",
    "dict": "{1: $}", "set": "{$}", "fstring": "f'{$}'", "star": "pow(*[$, 2])", "keyword": "pow(2, exp=$)", "kwstar": "pow(**{'a': $})",
    "walrus": "(q := $)", "bitor": "(2 | int($))", "bitor2": "($) | 2", "bitand": "($) & 2", "xor": "($) ^ 2", "shift": "($) << 2", "matmul": "($) @ ($)",
    "unknown": "($) + undeclared", "unknownfn": "median($)", "eval": "eval('$')", "open": "open('$')", "import": "__import__('os')",
    "len": "len(($))", "int": "int($)", "print": "print($)", "module": "np", "modfn": "math.sin($)", "modfn2": "np.sin($)", "callcall": "sin($)($)",
    "callexpr": "(sin)($).x($)", "self": "self", "globals": "globals()", "builtins": "__builtins__", "params": "params",
    "await": "(await $)", "yield": "(yield $)", "is": "($) is None", "in": "($) in (1,)", "getattr": "getattr($, 'real')", "range": "range(3)",
    "strfn": "str($)", "method_of_fn": "sin.__call__($)", "setcomp": "{q for q in ($,)}", "dictcomp": "{q: 1 for q in ($,)}",
}
# Statements: only possible for the whole expression.
STATEMENTS = ["q = x", "x = 1", "import os", "from math import sin", "x; y", "x\ny", "del x", "pass", "", "   ", "assert x", "x += 1", "x: int = 3",
              "for i in x: i", "while x: x", "if x: y", "def f(): x", "class A: x", "with x: y", "try:\n x\nfinally:\n y", "return x", "global x",
              "raise x", "async def f(): x", "lambda: x", "x +", "(x", "x y", "2 x", "$x", "x = y = 1", "x, y = 1, 2", "print(x)", "#x"]
CONST = {"MCBad": set(BAD)}
VARS = ["x", "yy", "z_3"]
ODDVARS = [["x", "yy", "z_3"], ["sin", "redshift", "pi"], ["log10", "e", "t0"], ["a", "b", "c"], ["exp", "floor", "x1"]]
PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "//": 2, "%": 2, "**": 4}


class Printer:
    """Writes a tree as Python source, with no, some or all redundant parentheses."""

    def __init__(self, names, table, style):
        self.names, self.table, self.style, self.n = names, table, style, 0

    def text(self, t, isfloat=False):
        return self.pr(t, 0, isfloat)

    def pr(self, t, prec, fl):
        self.n += 1
        k = t["t"]
        if k == "num":
            if t["d"] == 1 and not fl and (self.n + self.style) % 2:
                s = str(t["n"])
            else:
                s = repr(t["n"] / t["d"])
            return f"({s})" if s.startswith("-") else s
        if k == "var":
            return self.names[t["i"] - 1]
        if k == "inv":
            return self.par(f"~{t['n']}" if t["n"] >= 0 else f"~({t['n']})", 3, prec)
        if k in ("neg", "pos"):
            return self.par(("-" if k == "neg" else "+") + self.pr(t["a"], 3, fl), 3, prec)
        if k == "bin":
            p = PREC[t["op"]]
            if t["op"] == "**":
                s = f"{self.pr(t['l'], 5, fl)} ** {self.pr(t['r'], 3, fl)}"
            else:
                s = f"{self.pr(t['l'], p, fl)}{self.sp()}{t['op']}{self.sp()}{self.pr(t['r'], p + 1, fl)}"
            return self.par(s, p, prec)
        if k == "call":
            fl = fl or t["f"] in ("pow", "power")
            return t["f"] + "(" + ", ".join(self.pr(a, 0, fl) for a in aslist(t["args"])) + ")"
        if k == "id":
            return "(" + self.table["ids"][t["k"] - 1] + ")"
        if k == "comp":
            return "(" + self.table["comps"][t["k"] - 1].replace("$", "(" + self.pr(t["a"], 0, True) + ")") + ")"
        return "(" + BAD[t["kind"]].replace("$", self.pr(t["a"], 0, fl)) + ")"

    def sp(self):
        return ["", " ", "  "][(self.style + self.n) % 3]

    def par(self, s, mine, outer):
        if mine < outer or (self.style + self.n) % 7 == 0:
            return "(" + s + ")"
        return s


class World:
    def __init__(self, table, style, names=VARS):
        self.table, self.style, self.names = table, style, names
        self.nodes = []  # (text, {backend: (node, lists)})

    def new(self, op):
        text = Printer(self.names, self.table, self.style + len(self.nodes)).text(op["tree"])
        made, errors = {}, []
        for backend in ("numpy", "jax", "math"):
            lists = {v: GivenValueList([0.0]) for v in self.names}
            try:
                made[backend] = (BasicMathNode(text, backend=backend, **lists), lists)
            except Exception as e:  # noqa: BLE001
                errors.append(f"{backend}: {type(e).__name__}")
        if len(made) == 3:
            self.nodes.append((text, made))
            return {"r": "ok", "text": text}
        if made:
            return {"r": f"rejected only by {errors}", "text": text}
        return {"r": "rejected", "text": text}

    def eval(self, op):
        text, made = self.nodes[op["node"] - 1]
        envs = aslist(op["envs"])
        num = len(envs)
        got = {}
        for backend, (node, lists) in made.items():
            for i, v in enumerate(self.names):
                lists[v].values = np.array([e[i]["n"] / e[i]["d"] for e in envs])
                lists[v].reset()
            parts = [range(num)] if backend != "math" else [[i] for i in range(num)]  # math works on single values
            vals = []
            for part in parts:
                try:
                    if self.style % 3 == 0:
                        res = node.generate(num_samples=len(part))
                    elif self.style % 3 == 1:
                        parent = ParameterizedNode()
                        parent.add_parameter("p", node)
                        res = parent.get_param(parent.sample_parameters(num_samples=len(part)), "p")
                    else:
                        kw = {v: [lists[v].values[i] for i in part] for v in self.names}
                        kw = {v: (k[0] if len(part) == 1 else np.array(k)) for v, k in kw.items()}
                        res = node.eval(**kw)
                        if len(part) > 1 and np.ndim(res) == 0:
                            res = np.full(len(part), float(res))
                    if backend != "jax" and isinstance(res, jax.Array):
                        raise TypeError("a jax array from another backend")
                    vals += [float(res)] if len(part) == 1 else [float(x) for x in res]
                except Exception as e:  # noqa: BLE001
                    vals += [f"{type(e).__name__}: {e}"[:120]] * len(part)
            got[backend] = vals
        return {"r": "values", "text": text, "vals": got}


def agree(want, got):
    if want["r"] != got["r"]:
        return f"specified {want['r']}, got {got['r']}"
    if want["r"] == "values":
        for i, w in enumerate(aslist(want["vals"])):
            if not w["ok"]:
                continue
            for backend, vals in got["vals"].items():
                x = float(Fraction(w["n"], w["d"]))
                if len(vals) != len(aslist(want["vals"])):
                    return f"{backend}: {len(vals)} values"
                if isinstance(vals[i], str) or not abs(vals[i] - x) <= 1e-7 * (1 + abs(x)):
                    return f"{backend}, sample {i}: specified {w['n']}/{w['d']}, got {vals[i]}"
    return None


def undefined_anywhere(out):
    """An undefined sample (division by zero) may make a backend raise for the whole call."""
    return out["r"] == "values" and any(not w["ok"] for w in aslist(out["vals"]))


def replay(ctx, table, ops, outs, style, names=VARS):
    w = World(table, style, names)
    for i, (op, out) in enumerate(zip(ops, outs)):
        if op["k"] == "table":
            continue
        ctx.steps += 1
        got = getattr(w, op["k"])(op)
        why = agree(out, got)
        if why:
            ctx.violation(f"{op['k']} {got.get('text', '')!r}: {why}", {"op": op, "names": names})
            return
        if op["k"] == "new" and len(w.nodes) and out["r"] == "ok":
            if style % 97 == 5:
                ctx.sample({"expression": got["text"]})


class Gen:
    def __init__(self, rng, nid, ncomp):
        self.rng, self.nid, self.ncomp = rng, nid, ncomp

    def leaf(self):
        r = self.rng
        x = r.random()
        if x < 0.55:
            return {"t": "var", "i": r.randrange(1, 4)}
        if x < 0.9:
            return {"t": "num", "n": r.randrange(1, 8), "d": r.choice([1, 1, 2, 4])}
        if x < 0.96:
            return {"t": "id", "k": r.randrange(1, self.nid + 1)}
        return {"t": "inv", "n": r.randrange(-3, 4)}

    def tree(self, depth, bad):
        r = self.rng
        if bad and (depth == 0 or r.random() < 0.25):
            return {"t": "bad", "kind": r.choice(list(BAD)), "a": self.tree(max(depth - 1, 0), False)}
        if depth == 0:
            return self.leaf()
        x = r.random()
        if x < 0.6:
            side = r.random() < 0.5
            return {"t": "bin", "op": r.choice(list(PREC)), "l": self.tree(depth - 1, bad and side), "r": self.tree(r.randrange(depth) if not (bad and not side) else depth - 1, bad and not side)}
        if x < 0.72:
            return {"t": r.choice(["neg", "neg", "pos"]), "a": self.tree(depth - 1, bad)}
        if x < 0.88 or bad:
            f = r.choice(["abs", "fabs", "floor", "ceil", "trunc", "sqrt", "pow", "power"])
            args = [self.tree(depth - 1, bad)]
            if f == "sqrt" and not bad:
                args = [{"t": "bin", "op": "**", "l": args[0], "r": {"t": "num", "n": 2, "d": 1}}]
            if f in ("pow", "power"):
                args.append({"t": "num", "n": r.choice([-2, -1, 0, 1, 2, 3]), "d": 1})
            return {"t": "call", "f": f, "args": args}
        return {"t": "comp", "k": r.randrange(1, self.ncomp + 1), "a": self.tree(depth - 1, False)}

    def env(self):
        return [{"n": self.rng.randrange(-24, 25), "d": self.rng.choice([1, 2, 4, 8])} for _ in range(3)]

    def history(self):
        r = self.rng
        ops, count = [], 0
        for _ in range(r.randrange(1, 4)):
            bad = r.random() < 0.3
            ops.append({"k": "new", "tree": self.tree(r.randrange(1, 5), bad)})
            count += not bad
            for _ in range(2):
                if count:
                    ops.append({"k": "eval", "node": r.randrange(1, count + 1), "envs": [self.env() for _ in range(r.choice([1, 1, 2, 3, 5]))]})
        return ops


def run(ctx):
    table = ctx.oracle("MathExpr", [{"cfg": {"c": 0}, "ops": [{"k": "table"}]}], CONST)[0][1]["out"]
    used = " ".join(table["ids"] + table["comps"]) + " abs( fabs( floor( ceil( trunc( pow( power( sqrt( "
    for f in BasicMathNode.list_functions():
        if f not in ("max", "min") and f not in used:
            ctx.assumptions.append(f"the function {f} of the code is not in the specification")
    for n, log in enumerate(ctx.explore("MathExpr", 2, CONST)):
        replay(ctx, table, [x["op"] for x in log[1:]], [x["out"] for x in log[1:]], n)
        ctx.traces += 1
        if ctx.too_many():
            return
    for n, text in enumerate(STATEMENTS):
        ctx.steps += 1
        for backend in ("numpy", "jax", "math"):
            try:
                BasicMathNode(text, backend=backend, x=2.0, y=3.0)
                ctx.violation(f"new {text!r}: a statement is accepted", {"text": text})
                break
            except Exception:  # noqa: BLE001
                pass
    gen = Gen(ctx.rng, len(table["ids"]), len(table["comps"]))
    scripts = [{"cfg": {"c": 0}, "ops": gen.history()} for _ in range(1500 if ctx.quick else 15000)]
    logs = ctx.oracle("MathExpr", scripts, CONST)
    defined = 0
    for n, (script, log) in enumerate(zip(scripts, logs)):
        outs = [x["out"] for x in log[1:]]
        defined += sum(1 for o in outs if o["r"] == "values" and not undefined_anywhere(o))
        # Declared inputs may have the names of functions that the expression does not use.
        used = str(script)
        names = VARS if "'id'" in used or "'comp'" in used else ODDVARS[n % len(ODDVARS)]
        if any(f"'{v}'" in used for v in names):
            names = VARS
        replay(ctx, table, script["ops"], outs, n, names)
        ctx.traces += 1
        if ctx.too_many():
            return
    ctx.parts.append({"random evaluations with every sample defined": defined})
    # Known finding: max / min of several arguments.
    for backend in ("numpy", "jax"):
        for text, want in (("max(x, 0.0)", [1.0, 0.0, 3.0]), ("min(x, y)", [0.0, -2.0, 1.0])):
            try:
                node = BasicMathNode(text, backend=backend, x=GivenValueList([1.0, -2.0, 3.0]), y=GivenValueList([0.0, 5.0, 1.0]))
                got = [float(v) for v in node.generate(num_samples=3)]
            except Exception as e:  # noqa: BLE001
                got = type(e).__name__
            if got != want:
                ctx.violation(f"max/min of two arguments is not evaluated sample by sample: {backend} {text}: {got}", {})
