"""Binds specs/Relations.tla to models with an arbitrary rest frame flux (properties P13 and P14)."""

import math
import os
import shutil
import tempfile

import bilby
import numpy as np
import sncosmo
from lightcurvelynx import _LIGHTCURVELYNX_TEST_DATA_DIR
from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.models.agn import AGN
from lightcurvelynx.models.periodic_variable_star import EclipsingBinaryStar
from lightcurvelynx.models.redback_models import RedbackWrapperModel
from lightcurvelynx.models.salt2_jax import SALT2JaxModel
from lightcurvelynx.models.sncomso_models import SncosmoWrapperModel
from lightcurvelynx.models.spline_model import SplineModel
from lightcurvelynx.utils.wave_extrapolate import ConstantExtrapolation, LastValueExtrapolation, LinearDecay
from scipy.interpolate import RectBivariateSpline

SCALE = 2**18
ZS = [[1, 1], [2, 1], [3, 1], [3, 2], [1, 2]]


def fnu(flam, waves):
    """erg / s / cm2 / AA to nJy."""
    return flam * np.asarray(waves) ** 2 / 2.99792458e18 / 1e-32


class Case:
    """A model, the lattice of its times and wavelengths and an independent implementation of it."""

    per, sym, tol = 0, False, 2
    single = False  # one sample and one time per evaluation, and no band fluxes
    toggle = True  # the redshift can be switched off
    zs = ZS
    ts, ws = 1.0, 50.0
    wlo, whi = 6, 30  # wavelengths asked for, in multiples of 12 lattice units
    phases = range(-2, 4)  # multiples of 12 lattice units

    def __init__(self, rng, n, tmp):
        self.rng, self.n = rng, n
        self.sets = 2 if n > 1 else 1
        self.pid = [rng.randrange(self.sets) for _ in range(n)]
        self.lists = []
        self.make(tmp)

    def lst(self, vals):
        node = GivenValueList(list(vals))
        self.lists.append(node)
        return node

    def choose(self, options):
        """Values of one parameter: one per parameter set."""
        return [self.rng.choice(options) for _ in range(self.sets)]

    def per_sample(self, vals):
        return self.lst([vals[p] for p in self.pid])

    def common(self, redshift=True):
        r = self.rng
        self.t0 = [12 * r.randint(-3, 3) for _ in range(self.n)]
        self.z = [r.choice(self.zs) for _ in range(self.n)]
        kw = {"t0": self.lst([t * self.ts for t in self.t0])}
        if redshift:
            kw["redshift"] = self.lst([(z[0] - z[1]) / z[1] for z in self.z])
        kw["wave_extrapolation"] = r.choice([None, LastValueExtrapolation(), ConstantExtrapolation(0.25), LinearDecay(700.0)])
        return kw

    def ref(self, pid, phases, waves):
        return None


class Spline(Case):
    def make(self, tmp):
        r = self.rng
        ts = np.cumsum([r.choice([5.0, 9.0, 14.0]) for _ in range(8)]) - 40.0
        ws = np.cumsum([r.choice([700.0, 2100.0, 2600.0]) for _ in range(7)]) + 2000.0
        f = np.array([[r.uniform(0, 9) for _ in ws] for _ in ts])
        self.kx, self.ky = r.choice([1, 2, 3]), r.choice([1, 2, 3])
        self.amp = self.choose([0.5, 1.0, 3.0])
        kw = dict(time_degree=self.kx, wave_degree=self.ky, amplitude=self.per_sample(self.amp), **self.common())
        if r.random() < 0.3:
            path = os.path.join(tmp, "grid.txt")
            with open(path, "w") as out:
                for i, t in enumerate(ts):
                    for j, w in enumerate(ws):
                        print(t, w, repr(float(f[i, j])), file=out)
            self.model = SplineModel.from_file(path, **kw)
        else:
            self.model = SplineModel(ts, ws, f, **kw)
        self.spl = RectBivariateSpline(ts, ws, f, kx=self.kx, ky=self.ky)
        self.range = ws[0], ws[-1]

    def ref(self, pid, phases, waves):
        return self.amp[pid] * np.array([[self.spl(t, w)[0, 0] for w in waves] for t in phases])


class TimeSeries(Case):
    def make(self, tmp):
        r = self.rng
        ts = np.cumsum([r.choice([5.0, 9.0, 14.0]) for _ in range(8)]) - 40.0
        ws = np.cumsum([r.choice([700.0, 2100.0, 2600.0]) for _ in range(7)]) + 2000.0
        f = np.array([[r.uniform(0, 9) for _ in ws] for _ in ts]) * 1e-16
        args = dict(zero_before=r.random() < 0.5)
        self.amp = self.choose([0.5, 1.0, 3.0])
        self.model = SncosmoWrapperModel(sncosmo.TimeSeriesSource(ts, ws, f, **args), amplitude=self.per_sample(self.amp), **self.common())
        self.src = sncosmo.TimeSeriesSource(ts, ws, f, **args)
        self.range = ws[0], ws[-1]

    def ref(self, pid, phases, waves):
        self.src.set(amplitude=self.amp[pid])
        return np.array([[fnu(self.src.flux(np.array([t]), np.array([w]))[0, 0], w) for w in waves] for t in phases])


SALT = os.path.join(_LIGHTCURVELYNX_TEST_DATA_DIR, "truncated-salt2-h17")


class Salt(Case):
    ts, ws, wlo, whi = 0.125, 2.0, 159, 174
    phases = range(-1, 9)
    zs = [[1, 1]]
    tol = 6

    def make(self, tmp):
        self.par = {"x0": self.choose([0.25, 1.0]), "x1": self.choose([-1.0, 0.0, 2.0]), "c": self.choose([-0.1, 0.0, 0.5])}
        kw = {k: self.per_sample(v) for k, v in self.par.items()}
        self.src = sncosmo.SALT2Source(modeldir=SALT)
        if self.rng.random() < 0.5:
            self.model = SALT2JaxModel(model_dir=SALT, **kw, **self.common())
        else:
            self.model = SncosmoWrapperModel(sncosmo.SALT2Source(modeldir=SALT), **kw, **self.common())
        self.range = 3810.0, 4190.0

    def ref(self, pid, phases, waves):
        self.src.set(**{k: v[pid] for k, v in self.par.items()})
        return np.array([[fnu(self.src.flux(np.array([t]), np.array([w]))[0, 0], w) for w in waves] for t in phases])


class ToySource:
    """What a redback model function returns: flux densities over a limited range of wavelengths."""

    def __init__(self, amp, stretch, redshift, lo, hi):
        self.amp, self.stretch, self.zp1, self.lo, self.hi = amp, stretch, 1.0 + redshift, lo, hi

    def minwave(self):
        return self.lo

    def maxwave(self):
        return self.hi

    def get_flux_density(self, times, wavelengths):
        t, w = np.asarray(times, dtype=float), np.asarray(wavelengths, dtype=float)
        if np.any(w < self.lo) or np.any(w > self.hi):
            raise ValueError("the wavelengths are out of the range of the source")
        return np.array([[toy_flam(self, ti, wi) for wi in w] for ti in t])


def toy_flam(src, t, w):
    x = t / src.zp1 / src.stretch
    return src.amp * 1e-16 * (2.0 + math.sin(x / 17.0)) * (1.0 + 3000.0 / w) / src.zp1


def toy_model(times, amplitude, stretch, redshift, lo, hi, output_format=None, **kwargs):
    if output_format != "sncosmo_source" or kwargs:
        raise ValueError("unexpected arguments of the source")
    return ToySource(amplitude, stretch, redshift, lo, hi)


class Redback(Case):
    """A model that gets its redshift as a parameter and applies it itself."""

    toggle = False

    def make(self, tmp):
        r = self.rng
        self.par = {"amplitude": self.choose([0.5, 1.0, 3.0]), "redshift": self.choose([0.0, 0.5, 1.0]),
                    "lo": self.choose([0.0, 4800.0, 9000.0]), "hi": self.choose([10000.0, 12600.0, math.inf]),
                    "stretch": [2.0] * self.sets}
        pars = {k: self.per_sample(v) for k, v in self.par.items() if k != "stretch"}
        kw = self.common(redshift=False)
        self.z = [[1, 1]] * self.n
        priors = None
        if r.random() < 0.4:
            priors = {"stretch": bilby.core.prior.DeltaFunction(2.0), "amplitude": bilby.core.prior.DeltaFunction(77.0)}
        else:
            pars["stretch"] = 2.0
        self.model = RedbackWrapperModel(toy_model, parameters=pars, priors=priors, **kw)
        self.ext = kw["wave_extrapolation"]
        self.range = 0.0, 1e9

    def ref(self, pid, phases, waves):
        p = {k: v[pid] for k, v in self.par.items()}
        src = ToySource(p["amplitude"], p["stretch"], p["redshift"], p["lo"], p["hi"])
        out = []
        for t in phases:
            row = []
            for w in waves:
                edge = min(max(w, src.lo), src.hi)
                f = fnu(toy_flam(src, t, edge), edge)
                if edge != w:
                    f = 0.0 if self.ext is None else float(self.ext(edge, np.array([f]), np.array([w]))[0, 0])
                row.append(f)
            out.append(row)
        return np.array(out)


class Agn(Case):
    """One draw of the random walk for every evaluation: the reference is a model of its own for each value."""

    phases = range(0, 5)
    wlo, whi = 4, 12
    single, tol = True, 3

    def make(self, tmp):
        r = self.rng
        self.par = {"blackhole_mass": self.choose([1e7, 1e8, 1e9]), "edd_ratio": self.choose([0.1, 0.5, 1.0]), "distance": self.choose([1e7, 2e7]),
                    "inclination_rad": self.choose([0.0, 0.5, 1.2])}
        self.seed = r.randrange(10**6)
        kw = self.common()
        self.t0 = [self.t0[0]] * self.n
        kw["t0"] = self.lst([self.t0[0] * self.ts] * self.n)
        self.model = self.agn({k: self.per_sample(v) for k, v in self.par.items()}, kw)
        self.range = 0.0, 1e9

    def agn(self, par, kw):
        model = AGN(**{k: v for k, v in par.items() if k != "inclination_rad"}, **kw)
        model.set_parameter("inclination_rad", par["inclination_rad"])
        return model

    def rng_of(self):
        return {"sed_rng": np.random.default_rng(self.seed)}

    def ref(self, pid, phases, waves):
        par = {k: v[pid] for k, v in self.par.items()}
        out = [[self.agn(par, {"t0": 0.0, "redshift": 0.0}).evaluate_sed(np.array([t]), np.array([w]), **self.rng_of())[0, 0] for w in waves] for t in phases]
        return np.array(out)


def planck(temp, lam):
    nu = 2.99792458e10 / lam
    return 2 * 6.62607015e-27 * nu**3 / 2.99792458e10**2 / math.expm1(6.62607015e-27 * nu / (1.380649e-16 * temp))


def overlap(d, r1, r2):
    """Area of the overlap of two discs, by integration over strips; x = c - r cos(a) smooths the ends."""
    lo, hi = max(-r1, d - r2), min(r1, d + r2)
    if lo >= hi:
        return 0.0
    total = 0.0
    cuts = [lo, hi]
    if d > 0:
        x = (d * d + r1 * r1 - r2 * r2) / (2 * d)
        if lo < x < hi:
            cuts = [lo, x, hi]
    a = np.linspace(0, np.pi, 4001)
    for p, q in zip(cuts, cuts[1:]):
        x = (p + q) / 2 - (q - p) / 2 * np.cos(a)
        h = np.minimum(np.sqrt(np.maximum(r1 * r1 - x * x, 0)), np.sqrt(np.maximum(r2 * r2 - (x - d) ** 2, 0)))
        total += np.trapezoid(2 * h * (q - p) / 2 * np.sin(a), a)
    return total


class Binary(Case):
    per, sym = 96, True
    phases = range(-9, 10)
    ts = 0.0625
    tol = 3

    def make(self, tmp):
        r = self.rng
        self.par = {"major_semiaxis": self.choose([5e11, 9e11]), "inclination": self.choose([90.0, 80.0, 60.0]),
                    "primary_radius": self.choose([2e11, 1e11]), "secondary_radius": self.choose([2e11, 1.5e11, 5e10]),
                    "primary_temperature": self.choose([6000.0, 9000.0]), "secondary_temperature": self.choose([3000.0, 8000.0]),
                    "distance": self.choose([10.0, 30.0])}
        self.per = r.choice([96, 60, 24])
        kw = {k: self.per_sample(v) for k, v in self.par.items()}
        self.model = EclipsingBinaryStar(period=self.lst([self.per * self.ts] * self.n), **kw, **self.common())
        self.range = 0.0, 1e9

    def ref(self, pid, phases, waves):
        p = {k: v[pid] for k, v in self.par.items()}
        out = []
        for t in phases:
            ph = (t / (self.per * self.ts)) % 1.0
            # The secondary star circles the primary one and is closest at phase zero.
            a = 2 * math.pi * ph
            d = p["major_semiaxis"] * math.hypot(math.sin(a), math.cos(a) * math.cos(math.radians(p["inclination"])))
            area = overlap(d, p["primary_radius"], p["secondary_radius"])
            front = math.cos(a) > 0
            row = []
            for w in waves:
                lum = 0.0
                for name, hidden in (("primary", front), ("secondary", not front)):
                    size = math.pi * p[name + "_radius"] ** 2
                    lum += (size - (area if hidden else 0.0)) * planck(p[name + "_temperature"], w * 1e-8)
                row.append(lum / (p["distance"] * 3.0856775814913673e18) ** 2 / 1e-32)
            out.append(row)
        return np.array(out)


def trace(rng, kind, tmp):
    """Evaluations of a model in one process: returns the trace, or a description of what went wrong."""
    n = rng.choice([1, 2, 3])
    c = kind(rng, n, tmp)
    m = c.model
    m.set_graph_positions()
    state = m.sample_parameters(num_samples=n)
    unit = 12
    bands = {}
    for f in "gr":
        xs = sorted(rng.sample(range(c.wlo, c.whi + 1), 3))
        bands[f] = [[unit * x, k] for x, k in zip(xs, [rng.choice([0, 1, 2]), 2, rng.choice([0, 1, 3])])]
    pbs = [Passband(np.array([[w * c.ws, float(w * c.ws * k)] for w, k in tab]), "S", f, delta_wave=None, trim_quantile=None) for f, tab in bands.items()]
    group = PassbandGroup(pbs)
    ev = []
    on = True
    times = [unit * rng.choice(c.phases) + t for t in c.t0 for _ in range(2)][:4]
    waves = sorted({w for tab in bands.values() for w, _ in tab} | {unit * rng.randint(c.wlo, c.whi)})

    def sed(ts, ws, who):
        one = who is not None
        st = state.extract_single_sample(who) if one else state
        idx = [who] if one else list(range(n))
        if c.single:
            states = [st] if st.num_samples == 1 else [st.extract_single_sample(i) for i in idx]
            v = np.array([np.concatenate([m.evaluate_sed(np.array([float(t)]) * c.ts, np.array(ws, dtype=float) * c.ws, x, **c.rng_of()) for t in ts]) for x in states])
            v = v[0] if len(idx) == 1 else v
        else:
            v = np.asarray(m.evaluate_sed(np.array(ts, dtype=float) * c.ts, np.array(ws, dtype=float) * c.ws, st))
        if len(idx) == 1:
            v = v.reshape((1,) + v.shape)
        if v.shape != (len(idx), len(ts), len(ws)):
            return "the shape of the result"
        ev.append({"k": "sed", "on": on, "pid": [c.pid[i] for i in idx], "z": [c.z[i] for i in idx], "t0": [c.t0[i] for i in idx],
                   "ts": ts, "ws": ws, "v": v})

    # Reference values, where the rest frame wavelengths are in the range of the model.
    for which in (True, False):
        keys = {}
        for i in range(n):
            z = c.z[i] if which else [1, 1]
            for t in times:
                for w in waves:
                    rw = w * z[1] // z[0]
                    if c.range[0] <= rw * c.ws <= c.range[1]:
                        keys.setdefault((c.pid[i], (t - c.t0[i]) * z[1] // z[0]), set()).add(rw)
        for (pid, ph), ws in sorted(keys.items()):
            ws = sorted(ws)
            v = c.ref(pid, [ph * c.ts], [w * c.ws for w in ws])
            ev.append({"k": "ref", "pid": pid, "phs": [ph], "ws": ws, "v": v})
    for which in (True, False) if c.toggle else ():
        on = which
        m.set_apply_redshift(on)
        bad = sed(times, waves, None)
        if bad:
            return bad
    for _ in range(3):
        if c.toggle:
            on = rng.random() < 0.5
            m.set_apply_redshift(on)
        who = rng.choice([None, rng.randrange(n)])
        if c.single or rng.random() < 0.5:
            bad = sed([rng.choice(times) for _ in range(rng.choice([1, 2, 3]))], [rng.choice(waves) for _ in range(rng.choice([1, 2, 4]))], who)
            if bad:
                return bad
        else:
            ts = [rng.choice(times) for _ in range(rng.choice([1, 3, 5]))]
            fs = [rng.choice("gr") for _ in ts]
            idx = list(range(n)) if who is None else [who]
            st = state if who is None else state.extract_single_sample(who)
            v = np.asarray(m.evaluate_bandfluxes(group, np.array(ts, dtype=float) * c.ts, np.array(fs), st))
            if len(idx) == 1:
                v = v.reshape((1,) + v.shape)
            ev.append({"k": "band", "on": on, "pid": [c.pid[i] for i in idx], "z": [c.z[i] for i in idx], "t0": [c.t0[i] for i in idx],
                       "ts": ts, "fs": fs, "v": v})
    top = max(float(np.abs(e["v"]).max(initial=0.0)) for e in ev) or 1.0
    for e in ev:
        if not np.all(np.isfinite(e["v"])):
            return "the flux is not finite"
        e["v"] = np.rint(np.asarray(e["v"]) / top * SCALE).astype(int).tolist()
    return {"cfg": {"per": c.per, "sym": c.sym, "tol": c.tol, "bands": bands}, "ev": ev, "kind": kind.__name__}


def relations(ctx, count, kinds=(Spline, TimeSeries, Binary, Redback)):
    tmp = tempfile.mkdtemp(prefix="rel")
    traces = []
    try:
        for k in range(count):
            kind = Salt if k % 50 == 7 and Spline in kinds else Agn if k % 25 == 3 else kinds[k % len(kinds)]
            tr = trace(ctx.rng, kind, tmp)
            if isinstance(tr, str):
                ctx.violation(f"{kind.__name__}: {tr}", {"case": k})
            else:
                traces.append(tr)
    finally:
        shutil.rmtree(tmp)
    for tr, bad in zip(traces, ctx.accept("Relations", traces, chunk=800)):
        ctx.steps += len(tr["ev"])
        if bad:
            ctx.violation(f"{tr['kind']}: {bad['clause']}", {"event": tr["ev"][bad["i"]], "cfg": tr["cfg"]})
            if ctx.too_many():
                return
    ctx.sample({"kind": traces[0]["kind"], "events": [e["k"] for e in traces[0]["ev"]]})
