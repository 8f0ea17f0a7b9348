"""P20: effects on models (spec: Effects)."""

import functools
import json

import astropy.units as u
import numpy as np
from lightcurvelynx.astro_utils.dustmap import ConstantHemisphereDustMap, DustEBV, DustmapWrapper
from lightcurvelynx.effects.basic_effects import ConstantDimming
from lightcurvelynx.effects.effect_model import EffectModel
from lightcurvelynx.effects.extinction import ExtinctionEffect
from lightcurvelynx.effects.microlensing import Microlensing
from lightcurvelynx.effects.white_noise import WhiteNoise
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.math_nodes.single_value_node import SingleVariableNode
from lightcurvelynx.models.basic_models import ConstantSEDModel
from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel
from lightcurvelynx.models.physical_model import BandfluxModel, SEDModel
from lightcurvelynx.models.static_sed_model import StaticBandfluxModel

from vlib.core import aslist

CONST = {"MCEffects": {1, 2, 3, 4, 5}, "MCKinds": {"sed", "band", "add"}}
UNIT = {"flux_fraction": 0.25, "ebv": 0.13, "white_noise_sigma": 2.0, "microlensing_t0": 1.0, "u_0": 0.2, "t_E": 1.0, "extra": 1.0}
LAWS = {"CCM89": {"Rv": 3.1}, "O94": {"Rv": 2.6}, "F99": {"Rv": 3.1}, "G23": {"Rv": 4.0}, "G03_SMCBar": {}, "F04": {}}
TOL = 1e-7


def real(name, k):
    return bool(k) if name == "apply_microlensing" else k * UNIT[name]


@functools.lru_cache(None)
def extinguish(law, ebv, wave):
    """The factor of a law of dust_extinction at one wavelength, from its curve A(x)/A(V)."""
    m = ExtinctionEffect.load_extinction_model(law, **LAWS[law])
    return float(10 ** (-0.4 * m.Rv * ebv * m(wave * u.angstrom)))


def magnify(t0, u0, te, t):
    w = np.sqrt(u0**2 + ((t - t0) / te) ** 2)
    return (w * w + 2) / (w * np.sqrt(w * w + 4))


class Smooth(SEDModel):
    """b + t / 4 + w / 50, returned as an array that nobody may write to."""

    def __init__(self, b, **kwargs):
        super().__init__(**kwargs)
        self.add_parameter("b", b)

    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
        flux = self.get_param(graph_state, "b") + times[:, None] / 4 + wavelengths[None, :] / 50
        flux.setflags(write=False)
        return flux


class SmoothBand(BandfluxModel):
    def __init__(self, b, **kwargs):
        super().__init__(**kwargs)
        self.add_parameter("b", b)

    def compute_bandflux(self, times, filters, state, rng_info=None):
        flux = self.get_param(state, "b") + times / 4 + np.array([{"g": 1.0, "r": 30.0}[f] for f in filters])
        flux.setflags(write=False)
        return flux


class World:
    def __init__(self, cfg, style, noise):
        self.cfg, self.style, self.noise = cfg, style, noise
        self.n, self.count = cfg["n"], 0
        self.effects = {}
        n, own = self.n, aslist(cfg["own"])
        if cfg["kind"] == "add":
            self.parts = [self.part(p, own[p + 1]) for p in range(len(cfg["zf"]))]
            self.model = AdditiveMultiObjectModel(self.parts, node_label="whole")
            self.holders = [self.model] + self.parts
            self.give(self.model, own[0])
        else:
            self.parts = [self.part(0, own[0])]
            self.model = self.parts[0]
            self.holders = [self.model]

    def give(self, model, own):
        for x in aslist(own):
            model.add_parameter(x["n"], self.setter(x["n"], aslist(x["v"])))

    def part(self, p, own):
        base = 20.0 * (p + 1)
        k = (self.style + p) % 2
        if self.cfg["kind"] == "band":
            model = SmoothBand(base, node_label=f"m{p}") if k else StaticBandfluxModel({"g": base, "r": base + 7}, node_label=f"m{p}")
            self.give(model, own)
            return model
        z = [v / 2 - 1 for v in self.cfg["zf"][p]]
        z = self.column(z)
        t0 = 40.0 + p
        if k:
            model = Smooth(base, redshift=z, t0=t0, node_label=f"m{p}")
        else:
            model = ConstantSEDModel(brightness=base, redshift=z, t0=t0, node_label=f"m{p}")
        self.give(model, own)
        return model

    def base(self, p, zf, t, w):
        """The rest frame flux of a part at one (observer frame) time and wavelength or filter."""
        b = 20.0 * (p + 1)
        k = (self.style + p) % 2
        if self.cfg["kind"] == "band":
            return b + t / 4 + {"g": 1.0, "r": 30.0}[w] if k else b + (7 if w == "r" else 0)
        t0 = 40.0 + p
        return b + ((t - t0) * 2 / zf + t0) / 4 + (w * 2 / zf) / 50 if k else b

    # ------------------------------------------------------------ setters
    def column(self, vals):
        """A setter that yields these values for the samples of a state."""
        if len(set(vals)) == 1 and self.style % 2:
            return vals[0]
        return GivenValueList(list(vals) * 40)

    def setter(self, name, v):
        if not v:
            return None
        vals = [real(name, k) for k in v]
        self.count += 1
        how = (self.style + self.count) % 5
        if name == "ebv" and how in (0, 1, 2) and len(set(v)) <= 2:
            north, south = v[0], [k for k in v + [9] if k != v[0]][0]
            ra, dec = self.column([10.0 * i for i in range(self.n)]), self.column([0.0 if k == v[0] else -3.0 for k in v])
            if how == 0:
                return DustmapWrapper(ConstantHemisphereDustMap(north, south), ra=ra, dec=dec, ebv_func=lambda x: x * UNIT["ebv"])
            if how == 1:
                return DustmapWrapper(ConstantHemisphereDustMap(north * UNIT["ebv"], south * UNIT["ebv"]), ra=ra, dec=dec)
            return DustEBV(ConstantHemisphereDustMap(north * UNIT["ebv"], south * UNIT["ebv"]).compute_ebv, ra=ra, dec=dec)
        if how == 3:
            node = SingleVariableNode("value", self.column(vals))
            return node.value
        if how == 4:
            return SingleVariableNode(name, self.column(vals))
        return self.column(vals)

    def add(self, e):
        pars = {x["n"]: self.setter(x["n"], aslist(x["v"])) for x in aslist(e["pars"])}
        pars.pop("apply_microlensing", None)
        kw = {"effect_name": e["name"]}
        if e["t"] == "dim":
            eff = ConstantDimming(rest_frame=e["rest"], **kw, **pars)
        elif e["t"] == "noise":
            eff = WhiteNoise(rest_frame=e["rest"], **kw, **pars)
        elif e["t"] == "lens":
            eff = Microlensing(probability=e.get("prob", 1.0), **kw, **pars)
        else:
            law = e["law"]
            if e["pars"][0]["n"] != "ebv":
                raise AssertionError
            frame = "rest" if e["rest"] else "observer"
            extra = {k: v for k, v in pars.items() if k != "ebv"}
            if extra or self.style % 2:
                law = ExtinctionEffect.load_extinction_model(law, **LAWS[law])
                eff = ExtinctionEffect(law, pars["ebv"], frame=frame, **kw, **extra)
            else:
                eff = ExtinctionEffect(law, ebv=pars["ebv"], frame=frame, **LAWS[law], **kw)
        if eff.rest_frame != e["rest"]:
            return f"an effect declared for the {'rest' if e['rest'] else 'observer'} frame is in the other one"
        self.model.add_effect(eff)
        self.effects[e["name"]] = eff
        return ""

    def sample(self):
        self.state = self.model.sample_parameters(num_samples=self.n)

    # ------------------------------------------------------------ comparison
    def check_obs(self, obs):
        for h, (pars, names) in enumerate(zip(obs["pars"], obs["list"])):
            model = self.holders[h]
            if [str(e) for e in model.list_effects()] != aslist(names):
                return f"listed effects: specified {names}, got {model.list_effects()}"
            for x in aslist(pars):
                if x["n"] not in model.list_params():
                    return f"parameter {x['n']} of an effect is no parameter of the model"
                got = self.state[str(model)][x["n"]]
                want = [real(x["n"], k) for k in aslist(x["v"])] or [None] * self.n
                got = [got] if self.n == 1 else list(got)
                if len(got) != self.n or any((a is None) != (b is None) or (a is not None and abs(float(a) - float(b)) > 1e-12) for a, b in zip(got, want)):
                    return f"sampled values of {x['n']}: specified {want}, got {got}"
            known = set(model.list_params())
            if len(known) != len(model.list_params()):
                return "a parameter is listed twice"
        return ""

    def times_waves(self, k):
        times = np.array([[40.0], [31.0, 47.5, 90.0, 60.25], [52.0, 50.0], [1e4, 35.0, 35.0]][k % 4])
        if self.cfg["kind"] == "band":
            return times, np.array((["g", "r", "r", "g"] * 2)[k % 3:][:len(times)])
        return times, np.array([[6100.0, 4800.0, 8100.0], [5000.0], [9000.0, 5600.0]][k % 3])

    def evaluate(self, k):
        times, waves = self.times_waves(k)
        t2, w2 = times.copy(), waves.copy()
        times.setflags(write=False)
        waves.setflags(write=False)
        rng = np.random.default_rng(1000 + k) if (k + self.style) % 2 else None
        if self.cfg["kind"] == "band":
            flux = self.model.evaluate_bandfluxes(None, times, waves, self.state, rng_info=rng)
        else:
            flux = self.model.evaluate_sed(times, waves, self.state, rng_info=rng)
        if not np.array_equal(times, t2) or not np.array_equal(waves, w2):
            raise AssertionError("times or wavelengths modified")
        return np.asarray(flux)

    def factor(self, term, t, w):
        v = term["v"]
        if term["t"] == "dim":
            return real("flux_fraction", v[0])
        if term["t"] == "ext":
            return extinguish(term["law"], real("ebv", v[0]), w * 2 / term["zf"])
        if term["t"] == "lens":
            return float(magnify(real("microlensing_t0", v[0]), real("u_0", v[1]), real("t_E", v[2]), t))
        return 1.0

    def chain(self, value, var, terms, t, w):
        for term in aslist(terms):
            f = self.factor(term, t, w)
            value, var = value * f, var * f * f
            if term["t"] == "noise":
                var += real("white_noise_sigma", term["v"][0]) ** 2
        return value, var

    def compare(self, out, k):
        times, waves = self.times_waves(k)
        try:
            flux = self.evaluate(k)
        except Exception as e:  # noqa: BLE001
            if out["r"] != "ok" and type(e).__name__ == out["r"]:
                return ""
            return f"evaluation: specified {out['r']}, raised {type(e).__name__}: {e}"
        if out["r"] != "ok":
            return f"evaluation: specified {out['r']}, none raised"
        band = self.cfg["kind"] == "band"
        shape = (len(times),) if band else (len(times), len(waves))
        if flux.shape != (shape if self.n == 1 else (self.n,) + shape):
            return f"shape {flux.shape}"
        flux = flux.reshape((self.n,) + shape)
        zs = np.zeros(flux.shape)
        noisy = np.zeros(flux.shape, dtype=bool)
        for i, s in enumerate(out["samples"]):
            for c in np.ndindex(shape):
                t, w = float(times[c[0]]), (str(waves[c[0]]) if band else float(waves[c[1]]))
                value, var = 0.0, 0.0
                for p, part in enumerate(s["parts"]):
                    x, y = self.chain(self.base(p, part["zf"], t, w), 0.0, part["terms"], t, w)
                    scale = 1.0 if band else part["zf"] / 2
                    value, var = value + x * scale, var + y * scale**2
                value, var = self.chain(value, var, s["whole"], t, w)
                got = flux[(i,) + c]
                if var == 0:
                    if not abs(got - value) <= TOL * max(abs(value), 1e-6):
                        return f"sample {i}, time {t}, wavelength or filter {w}: specified {value}, got {got}"
                else:
                    zs[(i,) + c] = (got - value) / np.sqrt(var)
                    noisy[(i,) + c] = True
                    if not abs(zs[(i,) + c]) < 7:
                        return f"white noise of {zs[(i,) + c]} standard deviations"
        got = zs[noisy]
        if len(np.unique(np.round(got, 9))) != got.size:
            return "two fluxes have the same white noise"
        self.noise.extend(got.tolist())
        return ""


def run_world(ctx, cfg, ops, log, style, noise):
    """Compare a history with the specification; log[0]["obs"], log[i]["out"] and log[i]["obs"]."""
    w = World(cfg, style, noise)
    for k, (op, e) in enumerate(zip(ops, log[1:])):
        ctx.steps += 1
        bad = ""
        if op["k"] == "add":
            bad = w.add(op["e"])
            if not bad:
                w.sample()
                bad = w.check_obs(e["obs"])
        else:
            w.sample()
            bad = w.compare(e["out"], k + style) or w.check_obs(e["obs"])
        if bad:
            ctx.violation(bad, {"cfg": cfg, "ops": ops[:k + 1], "style": style})
            return


def random_script(rng):
    n = rng.choice([1, 2, 2, 3])
    kind = rng.choice(["sed", "sed", "band", "add"])
    nparts = rng.choice([2, 3]) if kind == "add" else 1
    zf = [[2] * n if kind == "band" or rng.random() < 0.3 else [rng.choice([2, 3, 4]) for _ in range(n)] for _ in range(nparts)]

    def vals(lo, hi):
        return [rng.randint(lo, hi)] * n if rng.random() < 0.4 else [rng.randint(lo, hi) for _ in range(n)]

    def par(name):
        lo, hi = {"flux_fraction": (0, 9), "ebv": (0, 7), "white_noise_sigma": (0, 3), "microlensing_t0": (20, 70), "u_0": (1, 9),
                  "t_E": (1, 40), "extra": (1, 5)}[name]
        return {"n": name, "v": [] if rng.random() < 0.03 else vals(lo, hi)}

    own = [[par(rng.choice(["ebv", "flux_fraction", "extra", "t_E"]))] if rng.random() < 0.2 else []
           for _ in range(nparts + 1 if kind == "add" else 1)]
    ops = []
    many_noise = rng.random() < 0.5
    for j in range(rng.choice([1, 2, 3, 4])):
        t = rng.choice(["dim", "ext", "noise", "lens"] if many_noise else ["dim", "ext", "lens", "dim", "ext"])
        if t == "ext" and kind == "band" and rng.random() < 0.8:
            t = "dim"
        e = {"t": t, "rest": t != "lens" and rng.random() < 0.5, "name": f"e{j}", "law": rng.choice(list(LAWS)) if t == "ext" else "",
             "pars": [par(x) for x in {"dim": ["flux_fraction"], "ext": ["ebv"], "noise": ["white_noise_sigma"],
                                       "lens": ["microlensing_t0", "u_0", "t_E"]}[t]]}
        if t == "lens":
            e["pars"].append({"n": "apply_microlensing", "v": [1] * n})
            if rng.random() < 0.3:
                e["prob"] = 0.0
                e["pars"][-1]["v"] = [0] * n
        elif rng.random() < 0.2:
            e["pars"].append(par("extra"))
        ops.append({"k": "add", "e": e})
        if rng.random() < 0.3:
            ops.append({"k": "eval"})
    ops += [{"k": "eval"}] * 2
    return {"cfg": {"n": n, "kind": kind, "zf": zf, "own": own}, "ops": ops}


def strip(script):
    """What the specification sees."""
    s = json.loads(json.dumps(script))
    for op in s["ops"]:
        op.get("e", {}).pop("prob", None)
    return s


def chance(ctx):
    """Microlensing that happens with a probability: drawn once per sample, and then applied to exactly those samples."""
    for n, p in enumerate([0.2, 0.5, 0.8]):
        eff = Microlensing(50.0, 0.1, 20.0, probability=p)
        model = ConstantSEDModel(brightness=10.0, node_label="m")
        model.add_effect(eff)
        state = model.sample_parameters(num_samples=2000)
        on = np.asarray(state["m"]["apply_microlensing"]).astype(bool)
        ctx.steps += 2
        if abs(on.sum() - 2000 * p) > 7 * np.sqrt(2000 * p * (1 - p)):
            ctx.violation(f"microlensing with probability {p} in {on.sum()} of 2000 samples", {"p": p})
        flux = model.evaluate_sed(np.array([50.0, 1e6]), np.array([5000.0, 6000.0]), state)
        want = np.where(on, 10.0 * magnify(50.0, 0.1, 20.0, 50.0), 10.0)
        if not np.allclose(flux[:, 0, 0], want) or not np.allclose(flux[:, 0, 1], want) or not np.allclose(flux[:, 1], 10.0, rtol=1e-4):
            ctx.violation("microlensing is applied to exactly the samples for which it was drawn", {"p": p})


def direct(ctx, rng, n):
    """An effect applied by the caller to arrays that nobody may write to."""
    t, w = rng.choice([1, 3, 4]), rng.choice([1, 2, 5])
    times, waves = np.array([rng.uniform(0, 100) for _ in range(t)]), np.array([rng.uniform(4000, 9000) for _ in range(w)])
    flux = np.array([[rng.choice([0, 1, -3, 700, 12]) for _ in range(w)] for _ in range(t)], dtype=rng.choice([int, float]))
    if rng.random() < 0.3:
        flux = np.asfortranarray(flux)
    band = flux[:, 0].copy()
    for a in (times, waves, flux, band):
        a.setflags(write=False)
    filters = np.array(["g"] * t)
    kind = ["dim", "ext", "lens", "noise"][n % 4]
    p = {"dim": {"flux_fraction": rng.choice([0.0, 0.3, 1.0, 2])}, "ext": {"ebv": rng.choice([0.0, 0.4])},
         "lens": {"microlensing_t0": 50.0, "u_0": rng.choice([0.05, 1.0]), "t_E": rng.choice([1.0, 30.0]), "apply_microlensing": True},
         "noise": {"white_noise_sigma": 0.0}}[kind]
    law = rng.choice(list(LAWS))
    eff = {"dim": lambda: ConstantDimming(0.5), "ext": lambda: ExtinctionEffect(law, ebv=0.1, frame="rest", **LAWS[law]),
           "lens": lambda: Microlensing(1.0, 0.5, 3.0), "noise": lambda: WhiteNoise(3.0)}[kind]()
    factor = {"dim": lambda a, b: p["flux_fraction"], "ext": lambda a, b: extinguish(law, p["ebv"], b),
              "lens": lambda a, b: magnify(50.0, p["u_0"], p["t_E"], a), "noise": lambda a, b: 1.0}[kind]
    ctx.steps += 1
    case = {"effect": kind, "p": p, "flux": flux.tolist(), "times": times.tolist(), "waves": waves.tolist()}
    try:
        got = np.asarray(eff.apply(flux, times=times, wavelengths=waves, **p, other=3))
        want = np.array([[flux[i, j] * factor(times[i], waves[j]) for j in range(w)] for i in range(t)])
        if got.shape != want.shape or not np.allclose(got, want, rtol=TOL, atol=1e-12):
            ctx.violation(f"{kind}.apply: expected {want.tolist()}, got {got.tolist()}", case)
        if kind != "ext":
            got = np.asarray(eff.apply_bandflux(band, times=times, filters=filters, **p, other=3))
            want = np.array([band[i] * factor(times[i], None) for i in range(t)])
            if got.shape != want.shape or not np.allclose(got, want, rtol=TOL, atol=1e-12):
                ctx.violation(f"{kind}.apply_bandflux: expected {want.tolist()}, got {got.tolist()}", case)
    except Exception as e:  # noqa: BLE001
        ctx.violation(f"{kind}: raised {type(e).__name__}: {e}", case)
        return
    for name in p:
        if name == "apply_microlensing":
            continue
        calls = [lambda q: eff.apply(flux, times=times, wavelengths=waves, **q)]
        if kind != "ext":
            calls.append(lambda q: eff.apply_bandflux(band, times=times, filters=filters, **q))
        for fn in calls:
            ctx.steps += 1
            try:
                fn({k: v for k, v in p.items() if k != name})
                ctx.violation(f"{kind} without {name} is applied", case)
            except ValueError:
                pass


def constructors(ctx):
    cases = [(lambda: ExtinctionEffect("CCM89", ebv=0.1), ValueError), (lambda: ExtinctionEffect("CCM89", ebv=0.1, frame="both"), ValueError),
             (lambda: ExtinctionEffect("Nonsense", ebv=0.1, frame="rest"), KeyError),
             (lambda: EffectModel().apply(np.ones((1, 1))), NotImplementedError),
             (lambda: EffectModel().apply_bandflux(np.ones(1)), NotImplementedError),
             (lambda: DustmapWrapper(ConstantHemisphereDustMap(1, 2), ra=3.0), ValueError)]
    for k, (fn, cls) in enumerate(cases):
        ctx.steps += 1
        try:
            fn()
            ctx.violation(f"constructor case {k} accepted", {"case": k})
        except cls:
            pass


def moments(ctx, z):
    """The standardized noise of all evaluations together."""
    z = np.array(z)
    if len(z) < 2000:
        raise RuntimeError(f"only {len(z)} noise values")
    n = len(z)
    stats = {"mean": z.sum() / np.sqrt(n), "variance": (np.sum(z * z) - n) / np.sqrt(2 * n), "skewness": np.sum(z**3) / np.sqrt(15 * n),
             "fourth moment": (np.sum(z**4) - 3 * n) / np.sqrt(96 * n), "neighbours": np.sum(z[1:] * z[:-1]) / np.sqrt(n - 1)}
    ctx.sample({"standardized white noise": {k: float(v) for k, v in stats.items()}, "values": n})
    for k, v in stats.items():
        if abs(v) > 7:
            ctx.violation(f"white noise does not follow its sigma: {k}, {v} standard deviations", {k: float(x) for k, x in stats.items()})


def run(ctx):
    noise = []
    for n, log in enumerate(ctx.explore("Effects", 3 if ctx.quick else 4, CONST)):
        ctx.traces += 1
        run_world(ctx, log[0]["cfg"], [e["op"] for e in log[1:]], log, n, noise)
        if ctx.too_many():
            return
    constructors(ctx)
    chance(ctx)
    for n in range(400 if ctx.quick else 4000):
        direct(ctx, ctx.rng, n)
    scripts = [random_script(ctx.rng) for _ in range(900 if ctx.quick else 9000)]
    for n, (s, log) in enumerate(zip(scripts, ctx.oracle("Effects", [strip(s) for s in scripts], CONST))):
        ctx.traces += 1
        run_world(ctx, s["cfg"], s["ops"], log, n, noise)
        if ctx.too_many():
            return
    moments(ctx, noise)
    ctx.sample({"script": scripts[0]})
