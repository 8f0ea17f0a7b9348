"""Binds specs/Pipeline.tla to the evaluation of models (properties P13, P14 and P15)."""

import math

import numpy as np
from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
from lightcurvelynx.effects.basic_effects import ConstantDimming
from lightcurvelynx.effects.effect_model import EffectModel
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.math_nodes.single_value_node import SingleVariableNode
from lightcurvelynx.models.basic_models import ConstantSEDModel, LinearWavelengthModel, SinWaveModel, StepModel
from lightcurvelynx.models.galaxy_models import GaussianGalaxy
from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel
from lightcurvelynx.models.periodic_model import PeriodicModel
from lightcurvelynx.models.physical_model import BandfluxModel, SEDModel
from lightcurvelynx.models.spline_model import SplineModel
from lightcurvelynx.models.static_sed_model import StaticBandfluxModel, StaticSEDModel
from lightcurvelynx.utils.wave_extrapolate import (
    ConstantExtrapolation,
    ExponentialDecay,
    LastValueExtrapolation,
    LinearDecay,
    WaveExtrapolationModel,
)

from vlib.core import aslist


STD = 1.0 / 1024  # width of a galaxy, degrees


class Poly(SEDModel):
    """a t + b w + c t w in lattice units."""

    def __init__(self, lat, a, b, c, lo=None, hi=None, **kwargs):
        super().__init__(**kwargs)
        self.lat, self.lo, self.hi = lat, lo, hi
        for name, value in (("ca", a), ("cb", b), ("cc", c)):
            self.add_parameter(name, value)

    def minwave(self, graph_state=None):
        return self.lo

    def maxwave(self, graph_state=None):
        return self.hi

    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
        p = self.get_local_params(graph_state)
        t, w = self.lat.t_back(times)[:, None], self.lat.w_back(wavelengths)[None, :]
        return p["ca"] * t + p["cb"] * w + p["cc"] * t * w


class Period(PeriodicModel):
    def __init__(self, lat, a, b, **kwargs):
        super().__init__(**kwargs)
        self.lat = lat
        self.add_parameter("ca", a)
        self.add_parameter("cb", b)

    def _evaluate_phases(self, phases, wavelengths, graph_state, **kwargs):
        p = self.get_local_params(graph_state)
        return p["ca"] * phases[:, None] + p["cb"] * self.lat.w_back(wavelengths)[None, :]


class BandPoly(BandfluxModel):
    def __init__(self, lat, a, b, **kwargs):
        super().__init__(**kwargs)
        self.lat = lat
        self.add_parameter("ca", a)
        self.add_parameter("cb", b)

    def compute_bandflux(self, times, filters, state, rng_info=None):
        p = self.get_local_params(state)
        return p["ca"] * self.lat.t_back(times) + p["cb"] * np.array([self.lat.fid[str(f)] for f in filters], dtype=float)


class Ramp(EffectModel):
    """flux * p + c t + d w in lattice units."""

    def __init__(self, lat, name, value, c, d, **kwargs):
        super().__init__(**kwargs)
        self.lat, self.name, self.c, self.d = lat, name, c, d
        self.add_effect_parameter(name, value)

    def apply(self, flux_density, times=None, wavelengths=None, rng_info=None, **kwargs):
        return flux_density * kwargs[self.name] + self.c * self.lat.t_back(times)[:, None] + self.d * self.lat.w_back(wavelengths)[None, :]

    def apply_bandflux(self, bandfluxes, *, times=None, filters=None, rng_info=None, **kwargs):
        x = np.array([self.lat.fid[str(f)] for f in filters], dtype=float)
        return bandfluxes * kwargs[self.name] + self.c * self.lat.t_back(times) + self.d * x


class Lattice:
    def __init__(self, style, cfg):
        self.ts = [1.0, 0.5, 0.125, 2.0, 8.0][style % 5]
        self.t0 = [0.0, 59000.0, -32.0][style % 3]
        self.ws = [1.0, 64.0, 100.0, 10.0][style % 4]
        self.fid = {}
        for f, x in cfg["fid"].items():
            self.fid[f] = self.fid["S_" + f] = x

    def t(self, x):
        return np.asarray(x, dtype=float) * self.ts + self.t0

    def w(self, x):
        return np.asarray(x, dtype=float) * self.ws

    def t_back(self, x):
        return (np.asarray(x, dtype=float) - self.t0) / self.ts

    def w_back(self, x):
        return np.asarray(x, dtype=float) / self.ws


def fl(x):
    return x[0] / x[1]


class World:
    def __init__(self, cfg, style, constant=False, top=None):
        self.top = top or (lambda world: {})  # further parameters of the model itself
        self.cfg, self.style, self.n = cfg, style, cfg["n"]
        self.lat = Lattice(style, cfg)
        self.constant = constant
        self.lists = []  # nodes to restart before sampling
        self.random = style % 11 == 5  # selections are left to the models
        self.given = {}
        self.state = None
        self.labels = style % 2 == 0
        self.objs = [None] * len(cfg["objs"])
        for k in range(len(cfg["objs"]) - 1, -1, -1):
            self.objs[k] = self.build(k)
        self.model = self.objs[0]
        group = [Passband(np.array([[self.lat.w(w), float(self.lat.w(w)) * k] for w, k in aslist(tab)]), "S", f, delta_wave=None, trim_quantile=None)
                 for f, tab in cfg["bands"].items()]
        self.pbs = dict(zip(cfg["bands"], group))
        self.group = PassbandGroup(group)

    def value(self, vals):
        """A parameter source with one value per sample."""
        self.style += 1
        vals = [float(v) for v in vals]
        if self.constant:
            return vals[0]
        if self.style % 13 == 0 and all(v == int(v) for v in vals):
            vals = [int(v) for v in vals]
        if len(set(vals)) == 1 and self.style % 3:
            node = vals[0] if self.style % 2 else SingleVariableNode("x", vals[0])
            return node if self.style % 2 else node.x
        node = GivenValueList(vals if self.style % 2 else np.array(vals))
        self.lists.append(node)
        if self.style % 5 == 0:
            return SingleVariableNode("x", node).x
        return node

    def ext(self, e):
        v = e["v"]
        return {"zero": lambda: None if self.style % 2 else WaveExtrapolationModel(), "const": lambda: ConstantExtrapolation(v),
                "last": LastValueExtrapolation, "lin": lambda: LinearDecay(decay_width=v * self.lat.ws),
                "exp": lambda: ExponentialDecay(rate=math.log(2.0) / v / self.lat.ws)}[e["k"]]()

    def build(self, k):
        o = self.cfg["objs"][k]
        p, m, lat = o["p"], o["m"], self.lat
        kw = {}
        if self.labels:
            kw["node_label"] = f"obj{k}"
        if aslist(o["t0"]):
            kw["t0"] = self.value(lat.t(o["t0"]))
        if aslist(o["z"]):
            kw["redshift"] = self.value([(z[0] - z[1]) / z[1] for z in o["z"]])
        if m in ("add", "rand"):
            kids = [self.objs[j - 1] for j in p["kids"]]
            kw.pop("t0", None)
            if k == 0:
                kw.update(self.top(self))
            if m == "add":
                w = [fl(x) for x in p["w"]]
                return AdditiveMultiObjectModel(kids, weights=None if all(x == 1 for x in w) and self.style % 2 else w, **kw)
            model = RandomMultiObjectModel(kids, object_names=[f"kid{j}" for j in range(len(kids))] if self.style % 3 == 0 else None,
                                           weights=self.weights(p), **kw)
            if not self.random:
                names = list(model.object_map)
                node = GivenValueList([names[j - 1] for j in p["sel"]])
                self.lists.append(node)
                model.set_parameter("selected_object", node)
            return model
        if k == 0:
            kw.update(self.top(self))
        if m in ("bpoly", "bstatic"):
            if m == "bpoly":
                return BandPoly(lat, self.value(p["a"]), self.value(p["b"]), **kw)
            tabs = [dict(t) for t in p["tabs"]]
            model = StaticBandfluxModel(tabs if len(tabs) > 1 or self.style % 2 else tabs[0], weights=self.weights(p), **kw)
            return self.select(model, p)
        kw["wave_extrapolation"] = self.ext(o["ext"])
        lo = float(lat.w(o["lo"][0])) if aslist(o["lo"]) else None
        hi = float(lat.w(o["hi"][0])) if aslist(o["hi"]) else None
        if m == "const":
            return ConstantSEDModel(brightness=self.value(p["b"]), **kw)
        if m == "gauss":
            return GaussianGalaxy(brightness=self.value(p["b"]), radius=self.value([STD] * self.n), ra=40.0, dec=-12.0, **kw)
        if m == "step":
            return StepModel(brightness=self.value(p["b"]), t1=self.value(lat.t(p["t1"])), **kw)
        if m == "lin":
            return LinearWavelengthModel(self.value(p["b"]), self.value([s / lat.ws for s in p["s"]]), min_wave=lo, max_wave=hi, **kw)
        if m == "poly":
            return Poly(lat, self.value(p["a"]), self.value(p["b"]), self.value(p["c"]), lo=lo, hi=hi, **kw)
        if m == "sin":
            return SinWaveModel(brightness=self.value(p["b"]), amplitude=self.value(p["a"]), frequency=self.value([1 / (4 * lat.ts)] * self.n), **kw)
        if m == "period":
            return Period(lat, self.value(p["a"]), self.value(p["b"]), period=self.value([x * lat.ts for x in p["per"]]), **kw)
        if m == "sed":
            tabs = [np.array([lat.w([x for x, _ in t]), [float(y) for _, y in t]]) for t in p["tabs"]]
            return self.select(StaticSEDModel(tabs if len(tabs) > 1 or self.style % 2 else tabs[0], weights=self.weights(p), **kw), p)
        if m == "spline":
            g = p["g"]
            return SplineModel(np.array(g["ts"]) * lat.ts, lat.w(g["ws"]), np.array(g["f"], dtype=float), amplitude=self.value(p["a"]),
                               time_degree=1, wave_degree=1, **kw)
        raise ValueError(m)

    def weights(self, p):
        w = aslist(p["wt"])
        return None if not w else [w, [x / 8 for x in w], np.array(w, dtype=float)][self.style % 3]

    def select(self, model, p):
        if not self.random:
            node = GivenValueList(list(p["sel"]))
            self.lists.append(node)
            model.set_parameter("selected_idx", node)
        return model

    def reach(self, k):
        p = self.cfg["objs"][k]["p"]
        return [k] + [x for j in (aslist(p["kids"]) if "kids" in p else []) for x in self.reach(j - 1)]

    # ---------------------------------------------------------------- operations
    def sample(self):
        if self.state is None:
            for node in self.lists:
                node.reset()
            self.model.set_graph_positions()
            self.state = self.model.sample_parameters(num_samples=self.n)
            if self.random:
                for o, obj in zip(self.cfg["objs"], self.objs):
                    if o["m"] in ("sed", "bstatic"):
                        o["p"]["sel"] = [int(x) for x in np.atleast_1d(self.state[obj.node_string]["selected_idx"])]
                    elif o["m"] == "rand":
                        names = list(obj.object_map)
                        o["p"]["sel"] = [names.index(str(x)) + 1 for x in np.atleast_1d(self.state[obj.node_string]["selected_object"])]
            if self.n == 1 and len(self.objs) > 1:
                tree = self.model.build_pytree(self.state)
                for k in self.reach(0):
                    own = self.objs[k].build_pytree(self.state)
                    if any(tree.get(name) != pars for name, pars in own.items()):
                        raise AssertionError(f"the tree of parameters {tree} lacks {own} of object {k}")
            if len(self.objs) > 1:
                graph = self.model.build_dependency_graph()
                for k in self.reach(0):
                    own = self.objs[k].build_dependency_graph()
                    need = {f"{self.objs[k]}.{name}" for name in self.objs[k].setters} | {p for p in own.all_params if "." in p and "=" not in p}
                    missing = sorted(p for p in need if p not in graph)
                    if missing:
                        raise AssertionError(f"the dependency graph of the composite lacks {missing} of object {k}")
        return self.state

    def step(self, op):
        self.style += 1
        try:
            return getattr(self, "do_" + op["k"])(op)
        except (ValueError, KeyError, TypeError, AttributeError) as e:
            return {"r": type(e).__name__, "text": str(e)[:150]}

    def do_effect(self, op):
        e = op["e"]
        v = self.value([fl(x) for x in e["v"]])
        if e["t"] == "dim":
            effect = ConstantDimming(v, rest_frame=e["rest"])
        else:
            effect = Ramp(self.lat, e["name"], v, e["c"], e["d"], rest_frame=e["rest"])
        self.model.add_effect(effect)
        self.state = None
        return {"r": "ok"}

    def do_apply(self, op):
        self.model.set_apply_redshift(op["on"])
        return {"r": "ok"}

    def do_pick(self, op):
        self.sample()
        return {"r": "ok"}

    def do_draw(self, op):
        self.model.set_graph_positions()
        st = self.model.sample_parameters(num_samples=op["num"], rng_info=np.random.default_rng(op["seed"]))
        key = "selected_object" if hasattr(self.model, "object_map") else "selected_idx"
        vals = [str(x) for x in np.atleast_1d(st[self.model.node_string][key])]
        names = list(self.model.object_map) if hasattr(self.model, "object_map") else [str(k) for k in range(len(self.cfg["objs"][0]["p"]["tabs"]))]
        op["count"] = [vals.count(x) for x in names]
        return {"r": "ok"}

    def arrays(self, *arrs):
        """The same values in other containers."""
        out = []
        for a in arrs:
            if self.style % 4 == 1 and a.dtype == float and np.all(a == a.astype(int)):
                a = a.astype(int)
            elif self.style % 4 == 2:
                a = np.repeat(a, 2)[::2]
            out.append(a)
        return out

    def do_sed(self, op):
        st = self.sample()
        ts, ws = self.arrays(self.lat.t(aslist(op["ts"])), self.lat.w(op["ws"]))
        kw = {}
        if op["far"] or self.style % 3 == 1:
            off = STD * math.sqrt(2 * math.log(2.0) * op["far"])
            kw = {"ra": 40.0, "dec": -12.0 + (off if self.style % 2 else -off)}
        if self.style % 7 == 0:
            res = self.model.evaluate_sed(list(ts), list(ws), st, **kw)
        else:
            keep = [ts.copy(), ws.copy()]
            res = self.model.evaluate_sed(ts, ws, st, **kw)
            if not (np.array_equal(ts, keep[0]) and np.array_equal(ws, keep[1])):
                return {"r": "the times or wavelengths given are modified"}
        if self.n == 1:
            res = np.asarray(res)[None]
            if self.style % 3 == 0:
                for node in self.lists:
                    node.reset()
                if not self.random and not np.array_equal(self.model.evaluate_sed(ts, ws, **kw), res[0]):
                    return {"r": "evaluation without a given state differs"}
        elif self.style % 2:
            for i in range(self.n):
                if not np.array_equal(self.model.evaluate_sed(ts, ws, st.extract_single_sample(i), **kw), res[i]):
                    return {"r": "the evaluation of one sample of the state differs"}
        return {"r": "sed", "v": res}

    def do_range(self, op):
        def clean(v):
            return [clean(x) for x in v] if isinstance(v, list) else None if v is None else float(v)

        st = self.sample()
        states = [st] if self.n == 1 else [st.extract_single_sample(i) for i in range(self.n)]
        return {"r": "range", "v": [(clean(self.model.minwave(graph_state=x)), clean(self.model.maxwave(graph_state=x))) for x in states]}

    def do_bad(self, op):
        fs, st = list(aslist(op["fs"])), self.sample()
        ts = self.lat.t(aslist(op["ts"]))
        one = next(iter(self.pbs.values()))
        if op["none"]:
            self.model.evaluate_bandfluxes(self.group, ts, None, st)
        else:
            self.model.evaluate_bandfluxes(one if len(set(fs)) == 1 and fs[0] == one.filter_name and self.style % 2 else self.group, ts, fs if self.style % 3 else np.array(fs), st)
        return {"r": "accepted"}

    def do_band(self, op):
        st = self.sample()
        fs = list(aslist(op["fs"]))
        full = self.style % 3 == 0 and not any(o["m"] == "bstatic" for o in self.cfg["objs"])
        names = ["S_" + f if full and k % 2 else f for k, f in enumerate(fs)]
        ts, = self.arrays(self.lat.t(aslist(op["ts"])))
        if self.style % 5 == 0 and len(set(fs)) == 1 and fs[0] in self.pbs:
            pb, flt = self.pbs[fs[0]], None if self.style % 2 else names
        else:
            pb, flt = self.group, names if self.style % 2 else np.array(names, dtype=str if names else float)
        keep = ts.copy()
        res = self.model.evaluate_bandfluxes(pb, ts, flt, st)
        if not np.array_equal(ts, keep):
            return {"r": "the times given are modified"}
        if self.n == 1:
            res = np.asarray(res)[None]
            if self.style % 3 == 0 and not self.random:
                for node in self.lists:
                    node.reset()
                if not np.array_equal(self.model.evaluate_bandfluxes(pb, ts, flt, None), res[0]):
                    return {"r": "evaluation without a given state differs"}
        elif self.style % 2:
            for i, one in enumerate(st):
                if not np.array_equal(self.model.evaluate_bandfluxes(pb, ts, flt, one), res[i]):
                    return {"r": "the evaluation of one sample of the state differs"}
        return {"r": "band", "v": res}

    def obs(self):
        out = []
        for obj in self.objs:
            out.append(len(obj.list_effects()))
        return {"ne": out}


def stated(spec, end, lat):
    if spec["m"] == "add":
        return [stated(x, end, lat) for x in aslist(spec["kids"])]
    v = aslist(spec[end])
    return float(lat.w(v[0])) if v else None


def compare(op, out, got, obs, gobs, lat):
    if out["r"] != got["r"]:
        return f"{op['k']} gives {got['r']} {got.get('text', '')}, not {out['r']}"
    if out["r"] in ("sed", "band"):
        want = [aslist(x) for x in out["v"]]
        shape = (len(want), len(aslist(op["ts"]))) + ((len(op["ws"]),) if out["r"] == "sed" else ())
        v = np.asarray(got["v"])
        if v.shape != shape:
            return f"{op['k']} has shape {v.shape}, not {shape}"
        ref = np.array([[[fl(x) for x in r] if out["r"] == "sed" else fl(r) for r in s] for s in want], dtype=float).reshape(shape)
        tol = 1e-9 * (1 + np.abs(ref).max(initial=0.0))
        if not np.all(np.abs(v - ref) <= tol):
            at = np.unravel_index(np.argmax(np.nan_to_num(np.abs(v - ref), nan=np.inf)), shape)
            return f"{op['k']} at (sample, time, wavelength or band) {tuple(map(int, at))} is {v[at]}, not {ref[at]}"
    if out["r"] == "range":
        for i, spec in enumerate(aslist(out["v"])):
            want = (stated(spec, "lo", lat), stated(spec, "hi", lat))
            if got["v"][i] != want:
                return f"the wavelength range of sample {i} is {got['v'][i]}, not {want}"
    if gobs["ne"] != aslist(obs["ne"]):
        return f"number of effects of the objects: {gobs['ne']}, not {obs['ne']}"
    return None


def replay(ctx, scripts, logs, worlds):
    for n, (script, log, (w, res)) in enumerate(zip(scripts, logs, worlds)):
        if log is None:
            continue
        for op, e, (got, gobs) in zip(script["ops"], log[1:], res):
            ctx.steps += 1
            bad = compare(op, e["out"], got, e["obs"], gobs, w.lat)
            if bad:
                ctx.violation(bad, {"case": n, "style": w.style, "op": op, "cfg": script["cfg"], "ops": script["ops"]})
                break
        ctx.traces += 1
        if ctx.too_many():
            return


def play(script, style, constant=False):
    w = World(script["cfg"], style, constant)
    res = []
    for op in script["ops"]:
        res.append((w.step(op), w.obs()))
    return w, res


def exhaustive(ctx, depth):
    logs = ctx.explore("Pipeline", depth)
    scripts = [{"cfg": log[0]["cfg"], "ops": [e["op"] for e in log[1:]]} for log in logs]
    # Selections are prescribed here, so the styles that leave them to the models are skipped.
    replay(ctx, scripts, logs, [play(s, n + n // 10 if (n + n // 10) % 11 != 5 else n + n // 10 + 11 * 7 + 1) for n, s in enumerate(scripts)])
    ctx.sample([e["op"]["k"] for e in logs[len(logs) // 2][1:]])


# ---------------------------------------------------------------- random histories
ZS = [[1, 1], [2, 1], [3, 1], [4, 1], [3, 2], [1, 2]]


class Gen:
    def __init__(self, rng, kinds, tops, evals):
        self.rng, self.kinds, self.tops, self.evals = rng, kinds, tops, evals

    def per(self, lo, hi):
        r = self.rng
        if r.random() < 0.3:
            return [r.randint(lo, hi)] * self.n
        return [r.randint(lo, hi) for _ in range(self.n)]

    def wt(self, k):
        w = [self.rng.choice([0, 0, 1, 2, 3]) for _ in range(k)]
        return w if sum(w) and self.rng.random() < 0.7 else []

    def leaf(self, m):
        r = self.rng
        o = {"m": m, "p": {}, "z": [], "t0": [12 * r.randint(0, 4) for _ in range(self.n)], "lo": [], "hi": [], "ext": {"k": "zero", "v": 0}}
        if m in ("bpoly", "bstatic"):
            if m == "bpoly":
                o["p"] = {"a": self.per(-3, 5), "b": self.per(-9, 9)}
            else:
                tabs = [{f: r.randint(0, 20) for f in self.fs} for _ in range(r.choice([1, 2, 3]))]
                o["p"] = {"tabs": tabs, "sel": [r.randrange(len(tabs)) for _ in range(self.n)], "wt": self.wt(len(tabs))}
            return o
        if r.random() < 0.75:
            zs = ZS if r.random() < 0.8 else [[1, 1]]
            o["z"] = [r.choice(zs) for _ in range(self.n)] if r.random() < 0.8 else [r.choice(zs)] * self.n
        p = o["p"]
        if m in ("const", "gauss"):
            p["b"] = self.per(0, 9)
        elif m == "step":
            p["b"] = self.per(1, 9)
            p["t1"] = [t + r.choice([0, 3, 6, 8, 12, 12, 24, 24, 25, 36, -3]) for t in o["t0"]]
        elif m == "lin":
            p["b"], p["s"] = self.per(-5, 9), self.per(-3, 5)
        elif m == "poly":
            p["a"], p["b"], p["c"] = self.per(-3, 5), self.per(-3, 5), self.per(-1, 1)
        elif m == "sin":
            p["b"], p["a"] = self.per(0, 9), self.per(0, 9)
        elif m == "period":
            p["a"], p["b"], p["per"] = self.per(0, 9), self.per(0, 3), [r.choice([1, 2, 3, 4, 6, 8, 12]) for _ in range(self.n)]
        elif m == "sed":
            tabs = []
            for _ in range(r.choice([1, 2, 3])):
                x, tab = r.choice([3, 4, 6, 12, 15, 24]), []
                for _ in range(r.choice([2, 3, 5])):
                    tab.append([x, r.randint(0, 9)])
                    x += r.choice([1, 2, 3, 4, 6, 12])
                tabs.append(tab)
            p["tabs"], p["sel"], p["wt"] = tabs, [r.randrange(len(tabs)) for _ in range(self.n)], self.wt(len(tabs))
        elif m == "spline":
            def axis(start):
                xs = [start]
                for _ in range(r.choice([1, 2, 4])):
                    xs.append(xs[-1] + r.choice([1, 2, 3, 4, 6, 12]))
                return xs

            ts, ws = axis(r.choice([-12, -4, 0, 3])), axis(r.choice([4, 6, 12, 20]))
            p["g"] = {"ts": ts, "ws": ws, "f": [[r.randint(0, 9) for _ in ws] for _ in ts]}
            p["a"] = self.per(1, 3)
            o["lo"], o["hi"] = [ws[0]], [ws[-1]]
        if m in ("lin", "poly"):
            if r.random() < 0.6:
                o["lo"] = [r.choice([6, 8, 9, 12, 12, 18, 24])]
            if r.random() < 0.6:
                o["hi"] = [(o["lo"][0] if o["lo"] else 12) + r.choice([0, 3, 6, 12, 12, 20, 36])]
        k = r.choice(["zero", "const", "last", "lin", "exp"])
        if k == "exp":
            # Halves at every g units: bounds and wavelengths are multiples of g.
            g, z = r.choice([(6, [2, 1]), (12, [1, 2])])
            if m in ("lin", "poly"):
                o["lo"] = [g * r.randint(1, 24 // g)] if o["lo"] else []
                o["hi"] = [(o["lo"][0] if o["lo"] else 12) + g * r.randint(0, 24 // g)] if o["hi"] else []
            elif m in ("sed", "spline"):
                k = "lin"
            o["z"] = [x if x in ([1, 1], z) else z for x in o["z"]]
        o["ext"] = {"k": k, "v": {"const": r.randint(0, 5), "lin": r.choice([2, 3, 6, 12, 24]), "exp": g if k == "exp" else 0}.get(k, 0)}
        if r.random() < 0.15 and m in ("const", "lin", "poly", "sed"):
            o["t0"] = []
            if r.random() < 0.7:
                o["z"] = []
        return o

    def tree(self, objs, top, depth):
        r = self.rng
        at = len(objs)
        objs.append(None)
        if top not in ("add", "rand"):
            objs[at] = self.leaf(top)
            return at
        kids = []
        for _ in range(r.choice([1, 2, 2, 3]) if top == "add" else r.choice([1, 2, 3, 4])):
            kind = r.choice(["add", "rand"]) if depth and r.random() < 0.2 else r.choice(self.kinds)
            kids.append(self.tree(objs, kind, depth - 1) + 1)
        o = {"m": top, "p": {"kids": kids}, "z": [], "t0": [], "lo": [], "hi": [], "ext": {"k": "zero", "v": 0}}
        if top == "add":
            o["p"]["w"] = [[1, 1]] * len(kids) if r.random() < 0.3 else [r.choice([[1, 1], [1, 2], [3, 4], [2, 1], [0, 1], [-1, 1]]) for _ in kids]
        else:
            o["p"]["sel"] = [r.randint(1, len(kids)) for _ in range(self.n)]
            o["p"]["wt"] = self.wt(len(kids))
        objs[at] = o
        return at

    def effect(self, objs):
        r = self.rng
        rest = r.random() < 0.5
        if r.random() < 0.4:
            v = [r.choice([[1, 2], [1, 4], [3, 4], [2, 1], [0, 1]]) for _ in range(self.n)]
            return {"k": "effect", "e": {"t": "dim", "rest": rest, "name": "flux_fraction", "v": v, "c": 0, "d": 0}}
        name = r.choice(["p1", "p1", "p2", "p3", "brightness", "flux_fraction"])
        v = [r.choice([[1, 1], [1, 2], [2, 1], [-1, 1], [3, 2]]) for _ in range(self.n)]
        return {"k": "effect", "e": {"t": "ramp", "rest": rest, "name": name, "v": v, "c": r.randint(-2, 2), "d": r.randint(-2, 2)}}

    def times(self):
        r = self.rng
        if r.random() < 0.08:
            if r.random() < 0.6:
                return [12 * k for k in r.sample(range(18), r.choice([10, 14, 18]))]
            return [12 * r.randint(0, 7) for _ in range(r.choice([12, 20, 40]) if self.n < 4 else 12)]
        return [12 * r.randint(0, 5) for _ in range(r.choice([1, 1, 2, 3, 5]))]

    def band(self):
        r = self.rng
        ws = sorted(r.sample([12, 24, 36, 48, 60], r.choice([2, 2, 3, 4])))
        ks = [r.randint(0, 3) for _ in ws]
        ks[r.randrange(len(ks))] = 2
        return [[w, k] for w, k in zip(ws, ks)]

    def config(self):
        r = self.rng
        self.n = r.choice([1, 2, 2, 3, 5]) if r.random() < 0.97 else 14
        self.fs = r.sample(["g", "r", "i", "u"], r.choice([1, 2, 3]))
        bands = {f: self.band() for f in self.fs}
        objs = []
        while True:
            objs = []
            self.tree(objs, r.choice(self.tops), 1)
            if len(objs) <= 7:
                break
        return {"n": self.n, "objs": objs, "bands": bands, "fid": {f: k + 1 for k, f in enumerate(self.fs)}}

    def script(self, style):
        r = self.rng
        cfg = self.config()
        objs = cfg["objs"]
        band = any(o["m"] in ("bpoly", "bstatic") for o in objs)
        early = style % 11 == 5  # the models choose once, after the last effect
        ops, effects, ap = [], r.choice([0, 1, 2, 2, 3]), [o["z"] != [] for o in objs]
        for _ in range(effects):
            if not early and r.random() < 0.4:
                ops.append(self.eval(objs, band, ap))
            ops.append(self.effect(objs))
        if early:
            ops.append({"k": "pick"})
        for _ in range(r.choice([1, 2, 3, 4])):
            if not band and r.random() < 0.25:
                on = r.random() < 0.5
                ops.append({"k": "apply", "on": on})
                ap = [on] * len(objs)
            ops.append(self.eval(objs, band, ap))
            if r.random() < 0.1:
                ops.append({"k": "range"})
            if r.random() < 0.05:
                fs = [r.choice(self.fs) for _ in range(r.choice([0, 1, 2, 4, 5]))]
                ops.append({"k": "bad", "ts": self.times()[:3] + ([12] if len(fs) <= 1 else []), "fs": fs, "none": not fs})
                if len(ops[-1]["ts"]) == len(fs):
                    ops.pop()
        return {"cfg": cfg, "ops": ops}

    def eval(self, objs, band, ap):
        r = self.rng
        noz = any(a and o["m"] not in ("add", "rand", "bpoly", "bstatic") and (not o["z"] or not o["t0"]) for a, o in zip(ap, objs))
        if r.random() < self.evals and not (objs[0]["m"] in ("bpoly", "bstatic") or (band and noz)):
            return {"k": "sed", "far": r.choice([0, 0, 1, 2, 3]), "ts": self.times() if r.random() < 0.95 else [], "ws": [12 * r.randint(1, 5) for _ in range(r.choice([1, 2, 3, 5]))]}
        if not noz and r.random() < 0.06:
            ts = [12, 24]
            return {"k": "band", "ts": ts, "fs": [self.fs[0], r.choice(["zz", "y"])]}
        ts = self.times()
        if r.random() < 0.04:
            ts = []
        fs = self.fs if r.random() < 0.7 else self.fs[:1]
        return {"k": "band", "ts": ts, "fs": [r.choice(fs) for _ in ts]}


def selections(ctx, count):
    """Frequencies of the random choices of a model."""
    gen = Gen(ctx.rng, ["const"], ["rand", "sed", "bstatic"], 0)
    scripts, worlds = [], []
    while len(scripts) < count:
        script = gen.script(0)
        top = script["cfg"]["objs"][0]
        if any(o["m"] in ("add", "rand") for o in script["cfg"]["objs"][1:]):
            continue
        if top["m"] == "rand":
            top["p"]["wt"] = gen.wt(len(top["p"]["kids"]))
        script["ops"] = [{"k": "draw", "num": ctx.rng.choice([1, 2, 50, 400]), "seed": ctx.rng.randrange(10**6), "count": []} for _ in range(3)]
        scripts.append(script)
        worlds.append(play(script, 5 + 11 * len(scripts), constant=True))
    replay(ctx, scripts, ctx.oracle("Pipeline", scripts), worlds)


ALL = ["const", "gauss", "step", "lin", "poly", "sin", "period", "sed", "spline"]


def random_histories(ctx, count, kinds, tops, evals, chunk=1500):
    gen = Gen(ctx.rng, kinds, tops, evals)
    scripts, worlds = [], []
    for n in range(count):
        script = gen.script(n)
        scripts.append(script)
        worlds.append(play(script, n))
    logs = ctx.oracle("Pipeline", scripts, chunk=chunk)
    replay(ctx, scripts, logs, worlds)
    ctx.sample({"model": [o["m"] for o in scripts[0]["cfg"]["objs"]], "ops": [o["k"] for o in scripts[0]["ops"]]})
