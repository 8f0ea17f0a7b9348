"""P23: SED surfaces given on a grid (spec: Grids)."""

import os
import tempfile
import warnings
from pathlib import Path

import astropy.units as u
import h5py
import numpy as np
import sncosmo
from dust_extinction.parameter_averages import F99
from lightcurvelynx.astro_utils.salt2_color_law import SALT2ColorLaw
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.models.bayesn import BayesnModel
from lightcurvelynx.models.salt2_jax import SALT2JaxModel
from lightcurvelynx.models.sncomso_models import SncosmoWrapperModel
from lightcurvelynx.models.spline_model import SplineModel
from lightcurvelynx.models.static_sed_model import StaticSEDModel
from lightcurvelynx.utils.bicubic_interp import BicubicInterpolator
from synphot import Empirical1D, SourceSpectrum

from vlib.core import aslist

B, V = 4302.57, 5428.55      # the colour law is 0 at B, -1 at V
MAG = 0.1                    # magnitudes per unit of a BayesN surface
PHOTONS = 1.509190179642e-6         # photons/s/cm2/A times A per nJy: 1e-32 / (h in erg s)
TO_NJY = 1e32 / 2.99792458e18    # erg/s/cm2/A times A^2 to nJy


def tup(rows):
    return np.array([aslist(r) for r in aslist(rows)], dtype=float)


class World:
    def __init__(self, cfg, style, rng, path):
        self.cfg, self.style, self.rng, self.path, self.kind = cfg, style, rng, path, cfg["kind"]
        self.xs, self.a = np.array(aslist(cfg["xs"]), dtype=float), aslist(cfg["a"])
        self.t0, self.z1 = rng.choice([0.0, 100.0, 59000.0]), rng.choice([1.0, 1.0, 1.5, 2.0, 1.25])
        self.kw = {"t0": self.t0, "redshift": self.z1 - 1.0, "node_label": "m"}
        if self.z1 == 1.0 and style % 2:
            del self.kw["redshift"]
        self.lists, self.chosen = [], False
        self.par = [{"x0": 1, "x1": 0, "c": 0, "amp": 1, "idx": 1, "th": 0, "av": 0, "rv": 3}]
        self.scale, self.shift = (rng.choice([1.0, 0.5, 2.0]), rng.choice([0.0, 0.0, -64.0, 512.0])) if self.kind == "bicubic" else (100.0, 2500.0) if self.kind == "bayesn" else (10.0, 1000.0)
        getattr(self, "make_" + self.kind)()

    def grid_file(self, name, xs, ys, z):
        name = os.path.join(self.path, name)
        with open(name, "w") as f:
            for i, x in enumerate(xs):
                for j, y in enumerate(ys):
                    f.write(f"{float(x)!r} {float(y)!r} {z[i][j]:g}\n")
        return name

    def wave(self, w):
        w = np.asarray(w, dtype=float)
        return B + w * (V - B) / 8 if self.kind == "salt" else self.shift + self.scale * w

    def phase(self, p):
        return np.asarray(p, dtype=float) * (self.scale if self.kind == "bicubic" else 1.0)

    def make_bicubic(self):
        xs, ys, z = self.phase(self.xs), self.wave(aslist(self.cfg["ys"])), tup(self.cfg["z"])
        style = self.style % 4
        if style == 0:
            factor = self.rng.choice([1.0, 4.0, 0.25])
            self.interp = BicubicInterpolator.from_grid_file(self.grid_file("grid.dat", xs, ys, z / factor), **({} if factor == 1.0 else {"scale_factor": factor}))
        elif style == 1:
            self.interp = BicubicInterpolator(xs.tolist(), ys.tolist(), z)
        else:
            self.interp = BicubicInterpolator(xs, ys, z)

    def law_file(self, name, ver):
        lines = [str(len(self.a))] + [repr(x / 1000.0) for x in self.a]
        meta = [f"Salt2ExtinctionLaw.min_lambda {B + self.cfg['lo'] * (V - B) / 2!r}", f"Salt2ExtinctionLaw.max_lambda {B + self.cfg['hi'] * (V - B) / 2!r}"]
        if ver:
            meta.append(f"Salt2ExtinctionLaw.version {ver}")
        self.rng.shuffle(meta)
        name = os.path.join(self.path, name)
        with open(name, "w") as f:
            f.write("\n".join(lines + meta) + "\n")
        return name

    def make_salt(self):
        names = {} if self.style % 2 else {"m0_filename": "a.dat", "m1_filename": "b.dat", "cl_filename": "law.dat"}
        ys = self.wave(aslist(self.cfg["ys"]))
        self.grid_file(names.get("m0_filename", "salt2_template_0.dat"), self.xs, ys, tup(self.cfg["z"]))
        self.grid_file(names.get("m1_filename", "salt2_template_1.dat"), self.xs, ys, tup(self.cfg["z1"]))
        self.law_file(names.get("cl_filename", "salt2_color_correction.dat"), self.style % 3 % 2)
        self.files = {"model_dir": self.path, **names}
        self.model = SALT2JaxModel(x0=1.0, x1=0.0, c=0.0, **self.files, **self.kw)

    def make_spline(self):
        ys, z = self.wave(aslist(self.cfg["ys"])), tup(self.cfg["z"])
        kx, ky = (min(n - 1, self.cfg.get("degree", 1)) for n in z.shape)
        kw = dict(self.kw, time_degree=kx, wave_degree=ky)
        if self.style % 2 and kx == 3:
            del kw["time_degree"]        # the default
        if self.style % 2 and ky == 3:
            del kw["wave_degree"]
        if self.style % 3 == 0:
            self.model = SplineModel.from_file(self.grid_file("grid.dat", self.xs, ys, z), **kw)
        else:
            self.model = SplineModel(self.xs, ys, z, **kw)

    def series(self):
        ys, z = self.wave(aslist(self.cfg["ys"])), tup(self.cfg["z"])
        return sncosmo.TimeSeriesSource(self.xs, ys, 1e-12 * z, zero_before=self.cfg["zero"] == 1, time_spline_degree=min(len(self.xs) - 1, self.cfg.get("degree", 1)))

    def make_series(self):
        self.model = SncosmoWrapperModel(self.series(), **({"amplitude": 1.0} if self.style % 3 else {}), **self.kw)
        if self.style % 3 == 0:
            self.model.set(amplitude=1.0)

    def make_sed(self):
        seds = [np.array([self.wave(aslist(y)), np.array(aslist(z), dtype=float)]) for y, z in zip(aslist(self.cfg["ys"]), aslist(self.cfg["z"]))]
        if len(seds) == 1 and self.style % 3 == 0:
            name = os.path.join(self.path, "sed" + self.rng.choice([".txt", ".npy", ".csv"]))
            if name.endswith(".npy"):
                np.save(name, seds[0].T)
            else:
                np.savetxt(name, seds[0].T, delimiter="," if name.endswith(".csv") else " ")
            self.model = StaticSEDModel.from_file(name, **self.kw)
        elif len(seds) == 1 and self.style % 3 == 1:
            y, z = seds[0]
            more = self.style % 2        # the source has another wavelength, which is not asked for
            source = SourceSpectrum(Empirical1D, points=np.append(y, [y[-1] + 40.0] * more), lookup_table=np.append(z * PHOTONS / y, [PHOTONS] * more), keep_neg=True)
            self.model = StaticSEDModel.from_synphot(source, **({"waves": y} if more else {}), **self.kw)
            try:
                StaticSEDModel.from_synphot(SourceSpectrum(Empirical1D, points=y, lookup_table=z * PHOTONS / y, keep_neg=True, z=0.5))
                raise AssertionError("a spectrum that is not at rest is accepted")
            except ValueError:
                pass
        else:
            self.model = StaticSEDModel(seds[0] if len(seds) == 1 and self.style % 2 else seds, **self.kw)

    def make_bayesn(self):
        names = {} if self.style % 2 else {"W0_filename": "a.txt", "W1_filename": "b.txt", "l_knots_filename": "l.txt", "tau_knots_filename": "t.txt"}
        path = Path(self.path)
        np.savetxt(path / names.get("W0_filename", "W0.txt"), tup(self.cfg["z1"]).T * MAG)       # rows: wavelengths
        np.savetxt(path / names.get("W1_filename", "W1.txt"), tup(self.cfg["z2"]).T * MAG)
        np.savetxt(path / names.get("l_knots_filename", "l_knots.txt"), self.wave(aslist(self.cfg["ls"])))
        np.savetxt(path / names.get("tau_knots_filename", "tau_knots.txt"), np.array(aslist(self.cfg["ks"]), dtype=float))
        with h5py.File(path / "template.h5", "w") as f:
            for name, data in (("phase", self.xs), ("wave", self.wave(aslist(self.cfg["ys"]))), ("flux", tup(self.cfg["z"]))):
                f.create_dataset("default/" + name, data=data.astype("float32") if self.style % 3 == 0 else data)
        self.files = {"_M20_model_path": path, "hsiao_model_path": path / "template.h5", **names}
        self.model = BayesnModel(theta=0.0, Av=0.0, Rv=3.0, **({"Amplitude": 1.0} if self.style % 2 else {}), **self.files, **self.kw)

    def do_set(self, op):
        self.par, self.lists, self.chosen = aslist(op["par"]), [], True
        for name, param, unit in (("x0", "x0", 1.0), ("x1", "x1", 4.0), ("c", "c", 1000.0), ("amp", "amplitude", 1.0), ("idx", "selected_idx", None),
                                  ("th", "theta", 1.0), ("av", "Av", 1.0), ("rv", "Rv", 1.0)):
            if name in self.par[0]:
                param = "Amplitude" if self.kind == "bayesn" and name == "amp" else param
                v = [p[name] - 1 if unit is None else p[name] / unit for p in self.par]
                if self.kind == "sed" and self.style % 2:
                    continue           # chosen by sampling
                if len(set(v)) > 1:
                    self.lists.append(GivenValueList(v, node_label=f"list{len(self.lists)}"))
                if self.kind == "series" and len(set(v)) == 1 and self.style % 2:
                    self.model.set(amplitude=v[0])
                    if self.model.get("amplitude") != v[0] or list(self.model.parameter_values) != [v[0]]:
                        return {"r": "the amplitude is not the one that was set"}
                    continue
                self.model.set_parameter(param, v[0] if len(set(v)) == 1 else self.lists[-1])
        return {"r": "ok"}

    def states(self):
        """The states to evaluate, and where their samples belong."""
        n = len(self.par)
        if self.kind == "sed" and (self.style % 2 or not self.chosen):
            out = []
            for p in self.par:
                for k in range(400):
                    state = self.model.sample_parameters(rng_info=np.random.default_rng(self.rng.randint(0, 10**9)))
                    if state["m"]["selected_idx"] == p["idx"] - 1:
                        break
                out.append(state)
            return out
        for node in self.lists:
            node.reset()
        state = self.model.sample_parameters(num_samples=n)
        return [state] if n == 1 or self.style % 3 else [state.extract_single_sample(i) for i in range(n)]

    def do_query(self, op):
        p, w = self.phase(aslist(op["p"])), self.wave(aslist(op["w"]))
        if self.kind == "bicubic":
            got = self.interp(p.tolist(), w) if self.style % 5 == 0 else self.interp(p, w)
            return {"r": "ok", "v": np.asarray(got, dtype=float)[None]}
        times, waves = self.t0 + p * self.z1, w * self.z1
        out = []
        for state in self.states():
            got = np.asarray(self.model.evaluate_sed(times, waves, state), dtype=float)
            out.append(got if got.ndim == 3 else got[None])
            if self.kind == "sed" and state.num_samples == 1:
                grid = self.wave(aslist(aslist(self.cfg["ys"])[int(state["m"]["selected_idx"])]))
                if (self.model.minwave(state), self.model.maxwave(state)) != (grid[0], grid[-1]):
                    return {"r": f"wavelength range {self.model.minwave(state)} to {self.model.maxwave(state)}"}
        return {"r": "ok", "v": np.concatenate(out) / self.z1}

    def do_law(self, op):
        ks = B + np.array(aslist(op["w"])) * (V - B) / 2
        try:
            if self.style % 2 or op["ver"]:
                law = SALT2ColorLaw.from_file(self.law_file("another.dat", op["ver"]))
            else:
                law = SALT2ColorLaw(B + self.cfg["lo"] * (V - B) / 2, B + self.cfg["hi"] * (V - B) / 2, [x / 1000.0 for x in self.a])
        except RuntimeError:
            return {"r": "RuntimeError"}
        return {"r": "ok", "law": np.asarray(law.apply(ks), dtype=float)}

    def do_mask(self, op):
        kw = {"t0": op["t0"] / 10.0, "redshift": op["z"] - 1}
        if op["z"] == 1 and self.style % 2:
            del kw["redshift"]
        if op["t0"] == 0 and self.style % 3:
            del kw["t0"]
        if self.kind == "salt":
            model = SALT2JaxModel(x0=1.0, x1=0.0, c=0.0, **self.files, **kw)
        elif self.kind == "series":
            model = SncosmoWrapperModel(self.series(), amplitude=1.0, **kw)
        else:
            model = BayesnModel(theta=0.0, Av=0.0, Rv=3.0, **self.files, **kw)
        return {"r": "ok", "m": model.mask_by_time(np.array(aslist(op["ts"])) / 10.0, model.sample_parameters()).tolist()}

    def do_build(self, op):
        try:
            BicubicInterpolator(np.array(aslist(op["xs"]), dtype=float), np.array(aslist(op["ys"]), dtype=float), np.ones((op["rows"], op["cols"])))
        except ValueError:
            return {"r": "ValueError"}
        return {"r": "ok"}

    def differs(self, op, got, want):
        if got["r"] != want["r"]:
            return f"{got['r']} instead of {want['r']}"
        if op["k"] == "query":
            exp = np.array([tup(m) for m in aslist(want["v"])]) / 16384.0
            if exp.shape != got["v"].shape:
                return f"shape {got['v'].shape} instead of {exp.shape}"
            top = np.abs(exp).max() + 1.0
            if self.kind == "salt":
                law, w = np.array(aslist(want["law"]), dtype=float) / 128000.0, self.wave(aslist(op["w"]))
                c = np.array([p["c"] for p in self.par]) / 1000.0
                e = -0.4 * c[:, None, None] * law
                unit = 1e-12 * w * w * TO_NJY * 10.0**e
                exp, tol = exp / 4 * unit, top * unit * 1e-4 * (1 + np.abs(e))
                fine = np.broadcast_to(np.abs(e) < 12, exp.shape)
                exp, tol, v = np.where(fine, exp, 0), np.where(fine, tol, 1), np.where(fine, got["v"], 0)
            elif self.kind == "bayesn":
                w = self.wave(aslist(op["w"]))
                mag = np.array([tup(m) for m in aslist(want["mag"])]) / 3840.0**2 * MAG
                dust = np.array([F99(Rv=float(p["rv"])).extinguish(w * u.AA, Ebv=p["av"] / p["rv"]) for p in self.par])[:, None, :]
                unit = 10.0 ** (-0.4 * mag) * dust * w * w * TO_NJY
                exp, v = exp * (16384.0 / 3840.0) * unit, got["v"]
                tol = (top * 5 + np.abs(exp / unit)) * unit * 1e-7
            elif self.kind == "series":
                w = self.wave(aslist(op["w"]))
                unit = 1e-12 * w * w * TO_NJY
                exp, v, tol = exp * unit, got["v"], top * unit * 1e-9
            else:
                v, tol = got["v"], top * {"bicubic": 2e-6, "sed": 1e-8}.get(self.kind, 1e-9)
            bad = np.argwhere(~(np.abs(v - exp) <= tol))
            if len(bad):
                n, i, j = bad[0]
                return f"sample {n}, phase {aslist(op['p'])[i]}, wavelength {aslist(op['w'])[j]}: {v[n, i, j]} instead of {exp[n, i, j]}"
        elif op["k"] == "law" and want["r"] == "ok":
            exp = np.array(aslist(want["law"]), dtype=float) / 128000.0
            size = np.array([sum(abs(x) for x in [1000] + self.a) / 1000.0 * max(1.0, abs(k) / 2.0) ** 7 for k in aslist(op["w"])])
            if exp.shape != got["law"].shape or not np.all(np.abs(got["law"] - exp) <= 2e-5 * size * 8):
                return f"colour law {got['law'].tolist()} instead of {exp.tolist()}"
        elif op["k"] == "mask" and got["m"] != aslist(want["m"]):
            return f"{got['m']} instead of {want['m']}"
        return None


def replay(ctx, cfg, ops, log, style):
    with tempfile.TemporaryDirectory(prefix="grids") as path, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        world = World(cfg, style, ctx.rng, path)
        for k, (op, entry) in enumerate(zip(ops, log[1:])):
            got = getattr(world, "do_" + op["k"])(op)
            bad = world.differs(op, got, entry["out"])
            ctx.steps += 1
            if bad:
                ctx.violation(f"{cfg['kind']} {op['k']}: {bad}"[:600], {"cfg": cfg, "ops": ops[: k + 1]})
                return
    ctx.traces += 1


def exhaustive(ctx, size, depth):
    for n, log in enumerate(ctx.explore("Grids", depth, {"MCSize": size})):
        log = aslist(log)
        replay(ctx, log[0]["cfg"], [e["op"] for e in log[1:]], log, n)
        if ctx.too_many():
            return


def axis(rng, n, widths, start):
    out = [start]
    regular = rng.random() < 0.5
    d = rng.choice(widths)
    for _ in range(n - 1):
        out.append(out[-1] + (d if regular else rng.choice(widths)))
    return out


def positions(rng, ax, n, kind, outside, nodes=True):
    out = []
    for _ in range(n):
        i = rng.randrange(len(ax) - 1)
        d = (ax[i + 1] - ax[i]) // 4
        q = ax[i] + d * (rng.choice([0, 1, 2, 3, 4]) if nodes else rng.choice([1, 2, 3]))
        if outside and rng.random() < 0.15:
            q = rng.choice([ax[0] - 4, ax[-1] + 4, ax[0] - 400 if kind == "bicubic" else ax[0] - 4, ax[0], ax[-1]])
        out.append(q)
    if rng.random() < 0.5:
        out.sort()
    return out


def common(rng, one, two, n):
    """Up to n positions inside two axes, and a quarter of a cell of both."""
    good = [q for q in range(max(one[0], two[0]), min(one[-1], two[-1]) + 1) if all((q - ax[0]) % ((ax[1] - ax[0]) // 4) == 0 for ax in (one, two))]
    return [rng.choice(good) for _ in range(n)] if good else []


def bayesn(rng):
    p = w = []
    steps = lambda n, start: [start + d * i for d in [4 * rng.choice([1, 2, 3, 5])] for i in range(n)]  # noqa: E731
    while not p or not w:
        xs, ys, ks, ls = steps(rng.choice([3, 4]), 2 * rng.randint(-10, 0)), steps(rng.choice([3, 4]), rng.randint(0, 6)), steps(rng.choice([3, 4]), rng.randint(-20, 0)), steps(rng.choice([3, 4]), rng.randint(0, 8))
        p, w = common(rng, xs, ks, 4), common(rng, ys, ls, 5)
    f, g = [rng.randint(-9, 9) for _ in xs], [rng.randint(-9, 9) for _ in ys]
    small = lambda: [[rng.randint(-3, 3) for _ in ls] for _ in ks]  # noqa: E731
    cfg = {"kind": "bayesn", "xs": xs, "ys": ys, "ks": ks, "ls": ls, "z": [[a + b for b in g] for a in f], "z1": small(), "z2": small(), "lo": 0, "hi": 0, "a": []}
    ops = []
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(["query", "set", "set", "mask"])
        ops.append({"query": {"k": k, "p": near(rng, p), "w": near(rng, w)}, "mask": mask(rng) if k == "mask" else None,
                    "set": {"k": k, "par": [{"th": rng.randint(-2, 2), "av": rng.choice([0, 0, 1, 2]), "rv": rng.randint(2, 6), "amp": rng.randint(-1, 4)} for _ in range(rng.choice([1, 1, 2, 3]))]}}[k])
    return {"cfg": cfg, "ops": ops + [{"k": "query", "p": p, "w": w}]}


def mask(rng, lo=-20, hi=50):
    t0, z = 10 * rng.choice([0, 0, rng.randint(-50, 6000)]), rng.randint(1, 4)
    return {"k": "mask", "t0": t0, "z": z, "ts": [t0 + 10 * e + d for e in (lo * z, hi * z, lo, hi, 0) for d in (-1, 0, 1)]}


def near(rng, q):
    """The same positions, the same but for one of them, or others in another order."""
    kind = rng.choice(["same", "one", "one", "others"])
    if kind == "others":
        return rng.choices(q, k=rng.choice([1, 3, len(q)]))
    q = list(q)
    if kind == "one" and len(set(q)) > 2:
        q[rng.choice([k for k, v in enumerate(q) if min(q) < v])] = rng.choice(sorted(set(q))[1:])
    return q


def scenario(rng):
    if rng.random() < 0.2:
        return bayesn(rng)
    kind = rng.choice(["bicubic", "bicubic", "salt", "salt", "spline", "sed", "series"])
    n, m = rng.choice([3, 4, 5, 7]), rng.choice([5, 6] if kind == "series" else [3, 5, 6])
    xs, z1, lo, hi, a, extra = [], [], 0, 0, [], {}
    narrow = True
    if kind == "sed":
        ys = [axis(rng, rng.randint(2, 6), [4, 8, 16], 4 * rng.randint(-5, 5)) for _ in range(rng.choice([1, 2, 3]))]
        z = [[rng.randint(-9, 9) for _ in y] for y in ys]
    else:
        xs = axis(rng, n, [4, 8, 16], 4 * rng.randint(-10, 5))
        ys = axis(rng, m, [4, 8, 16], 4 * rng.randint(-6, 5))
        cells = lambda: [[rng.randint(-9, 9) for _ in range(m)] for _ in range(n)]  # noqa: E731
        z = cells()
        if kind == "salt":
            z1, narrow = cells(), rng.random() < 0.3
            if narrow:
                ys = axis(rng, m, [4, 8], 4 * rng.randint(-6, 2))
            else:
                ys = axis(rng, m, [16], -4 * rng.randint(2, 6)) if rng.random() < 0.5 else axis(rng, m, [16, 32], -4 * rng.randint(2, 6))
            lo, hi, a = rng.randint(-4, 1), rng.randint(2, 5), [rng.randint(-500, 500) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 7]))]
        elif kind in ("spline", "series"):
            extra["zero"] = rng.randint(0, 1)
            extra["degree"] = rng.choice([1, 2, 3])
            if (extra["degree"] > 1 or kind == "series") and rng.random() < 0.7:
                k = [rng.randint(-3, 3) for _ in range(4)]
                z = [[k[0] + k[1] * x // 4 + k[2] * (y // 4) + k[3] * (x // 4) * (y // 4) for y in ys] for x in xs]
                extra["smooth"] = 1
    cfg = {"kind": kind, "xs": xs, "ys": ys, "z": z, "z1": z1, "lo": lo, "hi": hi, "a": a, **extra}
    ops = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["query", "query", "set", {"salt": rng.choice(["law", "mask"]), "bicubic": "build", "series": "mask"}.get(kind, "query")])
        if k == "set" and kind != "bicubic":
            size = rng.choice([1, 1, 2, 3])
            ops.append({"k": k, "par": [{"salt": {"x0": rng.randint(0, 5), "x1": rng.randint(-12, 12), "c": 0 if narrow else 10 * rng.randint(-30, 30)},
                                         "spline": {"amp": rng.randint(-3, 5)}, "series": {"amp": rng.randint(0, 5)}, "sed": {"idx": rng.randint(1, len(ys))}}[kind] for _ in range(size)]})
        elif k == "query":
            ops.append({"k": k})
        elif k == "law":
            ops.append({"k": k, "w": [rng.randint(-6, 12) for _ in range(5)], "ver": rng.choice([0, 1, 1, 2])})
        elif k == "mask":
            ops.append(mask(rng, xs[0], xs[-1]) if kind == "series" else mask(rng))
        elif k == "build":
            vals = lambda: sorted(rng.sample(range(-20, 20), rng.choice([1, 2, 3, 3, 4])))  # noqa: E731
            u, v = vals(), vals()
            if rng.random() < 0.3:
                rng.shuffle(u)
            if rng.random() < 0.3:
                v[-1] = v[0]
            ops.append({"k": k, "xs": u, "ys": v, "rows": len(u) + (rng.random() < 0.2), "cols": len(v) - (rng.random() < 0.2)})
    if kind == "sed":
        p, w = [rng.randint(-5, 5) for _ in range(3)], [q for q in sorted({q for y in ys for q in (y[0] - 4, y[0], y[-1], y[-1] + 4)})
                                                        if all(q % 16 == y[0] % 16 or not y[0] <= q <= y[-1] or q in y for y in ys)]
    else:
        smooth = kind not in ("spline", "series") or kind == "spline" and extra["degree"] == 1 or "smooth" in extra
        p = positions(rng, xs, 4, kind, kind in ("bicubic", "salt", "series")) if smooth else [rng.choice(xs + [xs[0] - 8, xs[-1] + 4] * (kind == "series")) for _ in range(4)]
        w = positions(rng, ys, 6, kind, True, kind != "salt") if smooth else [rng.choice(ys + [ys[0] - 8, ys[-1] + 4]) for _ in range(6)]
    for op in ops:
        if op["k"] == "query":
            op.update(p=near(rng, p), w=near(rng, w))
    return {"cfg": cfg, "ops": ops + [{"k": "query", "p": p, "w": w}]}


def surfaces(ctx, count):
    scripts = [scenario(ctx.rng) for _ in range(count)]
    for n, (s, log) in enumerate(zip(scripts, ctx.oracle("Grids", scripts, {"MCSize": 1}))):
        if log is not None:
            replay(ctx, s["cfg"], s["ops"], log, n)
        if ctx.too_many():
            return
    ctx.sample(scripts[0])


def run(ctx):
    exhaustive(ctx, 1 if ctx.quick else 2, 2 if ctx.quick else 3)
    surfaces(ctx, 250 if ctx.quick else 4000)
