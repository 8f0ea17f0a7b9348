"""P22: astrophysical relations (specs: Population, Scaling)."""

import math
import warnings

import astropy.constants as const
import astropy.units as u
import numpy as np
from astropy.cosmology import FlatLambdaCDM
from lightcurvelynx.astro_utils.agn_utils import eddington_ratio_dist_fun
from lightcurvelynx.astro_utils.black_body import black_body_luminosity_density_per_solid
from lightcurvelynx.astro_utils.mag_flux import flux2mag, mag2flux
from lightcurvelynx.astro_utils.obs_utils import phot_eff_function, spec_eff_function
from lightcurvelynx.astro_utils.redshift import RedshiftDistFunc, redshift_to_distance
from lightcurvelynx.astro_utils.snia_utils import (
    DistModFromRedshift,
    HostmassX1Func,
    SNCoordGivenPhysicalSep,
    X0FromDistMod,
    num_snia_per_redshift_bin,
)
from lightcurvelynx.astro_utils.unit_utils import flam_to_fnu, fnu_to_flam
from lightcurvelynx.base_models import FunctionNode, ParameterizedNode
from lightcurvelynx.consts import M_SUN_G, PARSEC_TO_CM
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.models.agn import AGN, sample_damped_random_walk
from lightcurvelynx.models.basic_models import ConstantSEDModel, StepModel
from lightcurvelynx.models.periodic_variable_star import EclipsingBinaryStar
from lightcurvelynx.models.snia_host import SNIaHost

from drivers import relations
from vlib.core import aslist

C_KM, C_M = 299792.458, 299792458.0
OM = {"matter": 1.0, "lambda": 0.0}
KINDS = ["distance", "model", "distmod", "x0", "sep", "flux", "mag", "crit", "rate", "lum", "magi", "sf", "tau"]
NEED = {"distance": ["z"], "model": ["z"], "distmod": ["z"], "x0": ["x1", "c", "alpha", "beta", "m"], "sep": ["z", "sep"],
        "flux": [], "mag": [], "crit": ["lgm"]}
AGN_PARAM = {"crit": "critical_accretion_rate", "rate": "blackhole_accretion_rate", "lum": "bolometric_luminosity", "magi": "mag_i",
             "sf": "sf_inf_4000aa", "tau": "tau_4000aa"}


def lg(x):
    return int(round(1e5 * math.log10(x)))


def real(n, v):
    if n == "z":
        return (v[0] / v[1]) ** 2 - 1.0
    if n in ("lgm", "lge"):
        return 10 ** (v / 1e5)
    return v / (10.0 if n == "sep" else 1000.0)


def exact(v, unit):
    return v["n"] / v["d"] * unit ** v["h"] * 10 ** (v["x"] / 1e5)


def column(v, unit):
    x = exact(v, unit)
    return {"lin": x, "mod": 5 * np.log10(x) - 5, "mag": -2.5 * np.log10(x)}[v["t"]]


def great_circle(ra1, dec1, ra2, dec2):
    a1, d1, a2, d2 = (np.radians(np.asarray(x, dtype=float)) for x in (ra1, dec1, ra2, dec2))
    h = np.sin((d2 - d1) / 2) ** 2 + np.cos(d1) * np.cos(d2) * np.sin((a2 - a1) / 2) ** 2
    return 2 * np.arcsin(np.sqrt(h))


class World:
    """The graph of a population: a node with the given columns, nodes for the derived ones, one root."""

    def __init__(self, cfg, style, rng):
        self.cfg, self.style, self.rng = cfg, style, rng
        self.h0, self.om = float(cfg["h0"]), OM[cfg["om"]]
        self.unit = C_KM / self.h0
        self.size = len(cfg["givens"][0]["v"])
        self.lists, self.kinds, self.outs, self.fresh = {}, [], [], 0
        self.source = ParameterizedNode(node_label="given")
        self.root = ParameterizedNode(node_label="root")
        self.ra, self.dec = rng.uniform(0, 360), rng.choice([-90.0, -89.9, -60.0, 0.0, 30.0, 85.0])
        for g in cfg["givens"]:
            self.source.add_parameter(g["n"], self.value(g["n"], aslist(g["v"])))

    def value(self, n, v):
        vals = [real(n, x) for x in v]
        if len(set(vals)) == 1 and self.style % 2:
            self.lists.pop(n, None)
            return vals[0]
        self.fresh += 1
        self.lists[n] = GivenValueList(vals, node_label=f"{n}_{self.fresh}")
        return self.lists[n]

    def ref(self, n):
        return getattr(self.source, n)

    def cosmology(self):
        return FlatLambdaCDM(H0=self.h0, Om0=self.om)

    def do_add(self, op):
        self.style += 1
        kind, src = op["kind"], op["src"]
        label = f"n{len(self.kinds)}"
        kw = {"node_label": label} if self.style % 3 else {}
        above = self.outs[src - 1] if src else None
        if kind == "distance":
            if self.style % 2:
                node = RedshiftDistFunc(self.ref("z"), self.cosmology(), **kw)
            else:
                cosmo = self.cosmology()
                node = FunctionNode(lambda z: redshift_to_distance(z, cosmo), z=self.ref("z"), **kw)
            out = node
        elif kind == "model":
            kw.update(redshift=self.ref("z"), cosmology=self.cosmology())
            which = self.style % 5
            if self.style % 7 < 3:       # the redshift is only set later
                model = [ConstantSEDModel(brightness=2.0, **dict(kw, redshift=self.rng.choice([0, 0.0, 0.3]))), AGN(t0=0.0, blackhole_mass=1e9, edd_ratio=0.1, **dict(kw, redshift=2.0)),
                         SNIaHost(hostmass=self.ref("lgm"), **dict(kw, redshift=self.ref("x1")))][self.style % 7]
                model.set_parameter("redshift", self.ref("z"))
                out = model.distance
            elif which == 0:
                out = ConstantSEDModel(brightness=2.0, **kw).distance
            elif which == 1:
                out = SNIaHost(hostmass=9.0, ra=1.0, **kw).distance
            elif which == 2:
                out = StepModel(brightness=1.0, t0=0.0, t1=5.0, **kw).distance
            elif which == 3:
                out = AGN(t0=0.0, blackhole_mass=1e9, edd_ratio=0.1, **kw).distance
            else:
                out = EclipsingBinaryStar(period=1.0, t0=0.0, inclination=80.0, major_semiaxis=1e11, primary_radius=1e10, secondary_radius=1e10,
                                          primary_temperature=6000.0, secondary_temperature=5000.0, **kw).distance
        elif kind == "distmod":
            out = DistModFromRedshift(self.ref("z"), H0=self.h0, Omega_m=self.om, **kw)
        elif kind == "x0":
            out = X0FromDistMod(distmod=above if src else self.ref("mu"), x1=self.ref("x1"), c=self.ref("c"), alpha=self.ref("alpha"),
                                beta=self.ref("beta"), m_abs=self.ref("m"), **kw)
        elif kind == "sep":
            node = SNCoordGivenPhysicalSep(host_ra=self.ra, host_dec=self.dec, physical_sep_kpc=self.ref("sep"), redshift=self.ref("z"),
                                           H0=self.h0, Omega_m=self.om, seed=self.style if self.style % 2 else None, **kw)
            self.root.add_parameter(f"dec{len(self.kinds)}", node.dec)
            out = node.ra
        elif kind == "flux":
            out = FunctionNode(mag2flux, mag=above if src else self.ref("mag"), **kw)
        elif kind == "mag":
            out = FunctionNode(flux2mag, flux_njy=above, **kw)
        else:
            args = {"lgm": self.ref("lgm"), "lge": self.ref("lge") if kind != "crit" else 0.5}
            later = self.rng.choice([[], [], ["lgm"], ["lge"], ["lgm", "lge"], ["lge", "lgm"]])       # given at first, or set later
            first = {a: self.rng.choice([1e7, self.ref("x1")]) if a in later else args[a] for a in args}
            model = AGN(t0=0.0, blackhole_mass=first["lgm"], edd_ratio=first["lge"], redshift=0.0, distance=10.0, **kw)
            for a in later:
                model.set_parameter({"lgm": "blackhole_mass", "lge": "edd_ratio"}[a], args[a])
            out = getattr(model, AGN_PARAM[kind])
        self.root.add_parameter(f"k{len(self.kinds)}", out)
        self.outs.append(out)
        self.kinds.append(kind)
        return {"r": "ok"}

    def do_set(self, op):
        self.source.set_parameter(op["n"], self.value(op["n"], aslist(op["v"])))
        return {"r": "ok"}

    def do_sample(self, op):
        for node in self.lists.values():
            node.reset()
        kw = {} if self.size == 1 and self.style % 2 else {"num_samples": self.size}
        state = self.root.sample_parameters(**kw)
        cols = []
        for k, kind in enumerate(self.kinds):
            x = np.ravel(state["root"][f"k{k}"]).astype(float)
            if kind == "sep":
                dec = np.ravel(state["root"][f"dec{k}"])
                if not (np.all(x >= 0) and np.all(x <= 360) and np.all(np.abs(dec) <= 90)):
                    return {"r": f"positions off the sphere: {x.tolist()}, {dec.tolist()}"}
                x = great_circle(self.ra, self.dec, x, dec)
            cols.append(x)
        return {"r": "ok", "cols": cols}

    def do_conv(self, op):
        units = {"A": u.AA, "nm": u.nm, "um": u.um, "cm": u.cm,
                 "cgsA": u.erg / u.s / u.cm**2 / u.AA, "cgsnm": u.erg / u.s / u.cm**2 / u.nm, "SI": u.W / u.m**3, "Wum": u.W / u.m**2 / u.um,
                 "nJy": u.nJy, "Jy": u.Jy, "cgs": u.erg / u.s / u.cm**2 / u.Hz, "mJy": u.mJy}
        self.style += 1
        f, w = (np.array(aslist(op[k]), dtype=float) for k in ("f", "w"))
        if len(w) == 1 and self.style % 2:
            w = w[0]
        if len(f) == 1 and self.style % 3 == 0:
            f = f[0]
        if self.style % 5 == 0:
            f, w = f.tolist(), w.tolist()
        keep = np.array(f), np.array(w)
        try:
            fn = flam_to_fnu if op["dir"] == "fnu" else fnu_to_flam
            got = fn(f, w, wave_unit=units[op["wu"]], flam_unit=units[op["lu"]], fnu_unit=units[op["nu"]])
        except ValueError:
            return {"r": "ValueError"}
        if not (np.array_equal(keep[0], f) and np.array_equal(keep[1], w)):
            return {"r": "the input is changed"}
        if np.shape(got) != np.broadcast_shapes(np.shape(f), np.shape(w)):
            return {"r": f"shape {np.shape(got)} for {np.shape(f)} and {np.shape(w)}"}
        return {"r": "ok", "m": np.atleast_2d(got)}

    def do_rates(self, op):
        sr = op["sr"] / 100 if op["sr"] else None
        got, mid = num_snia_per_redshift_bin(op["lo"] / 1e4, op["hi"] / 1e4, op["bins"], solid_angle=sr, H0=self.h0, Omega_m=self.om)
        return {"r": "ok", "num": np.asarray(got) / (sr or 4 * np.pi), "mid": np.asarray(mid)}

    def do_eff(self, op):
        snr, mag = np.array(aslist(op["snr"])) / 1e3, np.array(aslist(op["mag"])) / 1e3
        self.style += 1
        if self.style % 2:
            snr, mag = snr.tolist(), mag.tolist()
        return {"r": "ok", "phot": np.asarray(phot_eff_function(snr)).tolist(), "spec": np.asarray(spec_eff_function(mag))}

    def differs(self, op, got, want):
        if got["r"] != want["r"]:
            return f"{got['r']} instead of {want['r']}"
        if op["k"] == "sample":
            for k, (kind, x, col) in enumerate(zip(self.kinds, got["cols"], aslist(want["cols"]))):
                exp = np.array([column(v, self.unit) for v in aslist(col)])
                tol = 2e-4 if kind in ("crit", "rate", "lum", "sf", "tau") else 1e-7
                if kind == "sep":
                    tol = 1e-5
                    exp = np.where(np.abs(x - exp) < (1e-7 if abs(self.dec) == 90 else 1e-12), x, exp)   # arcsin next to the pole
                if x.shape != exp.shape or not np.allclose(x, exp, rtol=tol, atol=2e-4 if kind == "magi" else 1e-7 if kind in ("mag", "distmod") else 0):
                    return f"{kind}: {x.tolist()} instead of {exp.tolist()}"
        elif op["k"] == "conv" and want["r"] == "ok":
            exp = np.array([[exact(v, C_M) for v in aslist(row)] for row in aslist(want["m"])])
            if exp.shape != got["m"].shape or not np.allclose(got["m"], exp, rtol=1e-9, atol=0):
                return f"{got['m'].tolist()} instead of {exp.tolist()}"
        elif op["k"] == "rates":
            edges = np.array([e[0] / e[1] for e in aslist(want["edges"])])
            total = sum(t["a"] / t["b"] * (1 + edges) ** (t["e"] / 10) for t in aslist(want["terms"]))
            exp = np.diff(total) * (C_KM / 70.0) ** 3
            if not np.allclose(got["mid"], (edges[:-1] + edges[1:]) / 2, rtol=1e-9):
                return f"bin centres {got['mid'].tolist()}"
            if got["num"].shape != exp.shape or not np.allclose(got["num"], exp, rtol=2e-3):
                return f"rates {got['num'].tolist()} instead of {exp.tolist()}"
        elif op["k"] == "eff":
            exp = 1 / (1 + np.exp(np.array(aslist(want["odds"])) / 1e5))
            if got["phot"] != aslist(want["phot"]) or not np.allclose(got["spec"], exp, rtol=1e-7, atol=0):
                return f"efficiencies {got['phot']} {got['spec'].tolist()} instead of {want['phot']} {exp.tolist()}"
        return None


def replay(ctx, cfg, ops, log, style):
    world = World(cfg, style, ctx.rng)
    for k, (op, entry) in enumerate(zip(ops, log[1:])):
        if entry["out"]["r"] == "none":
            continue
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = getattr(world, "do_" + op["k"])(op)
        bad = world.differs(op, got, entry["out"])
        ctx.steps += 1
        if bad:
            ctx.violation(f"{op['k']}: {bad}"[:600], {"cfg": cfg, "ops": ops[: k + 1]})
            return
    ctx.traces += 1


def exhaustive(ctx, kinds, length, depth):
    for n, log in enumerate(ctx.explore("Population", depth, {"MCKinds": set(kinds), "MCLen": length})):
        log = aslist(log)
        if log[-1]["op"]["k"] != "sample":
            continue
        replay(ctx, log[0]["cfg"], [e["op"] for e in log[1:]], log, n)
        if ctx.too_many():
            return


def scenario(rng):
    n = rng.choice([1, 1, 2, 3, 5])

    def given(name):
        same = rng.random() < 0.3
        def one():
            if name == "z":
                q = rng.randint(1, 5)
                return [rng.randint(q + 1, q + rng.choice([1, 2])), q]
            return {"x1": lambda: 25 * rng.randint(-120, 120), "c": lambda: 25 * rng.randint(-20, 20), "alpha": lambda: 5 * rng.randint(20, 40),
                    "beta": lambda: 25 * rng.randint(100, 150), "m": lambda: rng.randint(-19900, -18500), "mu": lambda: rng.randint(30000, 46000),
                    "mag": lambda: rng.randint(-5000, 35000), "sep": lambda: rng.randint(1, 3000), "lgm": lambda: 1000 * rng.randint(500, 1050),
                    "lge": lambda: 1000 * rng.randint(-400, 100)}[name]()
        v = [one() for _ in range(n)]
        return [v[0]] * n if same else v

    names = ["z", "x1", "c", "alpha", "beta", "m", "mu", "mag", "sep", "lgm", "lge"]
    cfg = {"om": rng.choice(["matter", "lambda"]), "h0": rng.choice([50, 67, 70, 73, 100]), "givens": [{"n": g, "v": given(g)} for g in names]}
    ops, kinds = [], []
    for _ in range(rng.randint(3, 14)):
        k = rng.choice(["add", "add", "add", "sample", "set", "conv", "rates", "eff"])
        if k == "add":
            kind = rng.choice(KINDS)
            fit = {"x0": "distmod", "flux": "mag", "mag": "flux x0"}.get(kind, "").split()
            srcs = [i + 1 for i, x in enumerate(kinds) if x in fit] + ([] if kind == "mag" else [0])
            if not srcs:
                continue
            kinds.append(kind)
            ops.append({"k": k, "kind": kind, "src": rng.choice(srcs)})
        elif k == "sample":
            ops.append({"k": k})
        elif k == "set":
            name = rng.choice(names)
            ops.append({"k": k, "n": name, "v": given(name)})
        elif k == "conv":
            cols, rows = rng.randint(1, 4), rng.randint(1, 4)
            fs = (rng.choice([1, rows]), cols if rng.random() < 0.9 else cols + 1)
            ws = (rng.choice([1, 1, rows, rows + (rng.random() < 0.2)]), cols if rng.random() < 0.9 else 1)
            ops.append({"k": k, "dir": rng.choice(["fnu", "flam"]), "f": [[rng.randint(-99, 99) for _ in range(fs[1])] for _ in range(fs[0])],
                        "w": [[rng.randint(1, 900) for _ in range(ws[1])] for _ in range(ws[0])], "wu": rng.choice(["A", "nm", "um", "cm"]),
                        "lu": rng.choice(["cgsA", "cgsnm", "SI", "Wum"]), "nu": rng.choice(["nJy", "Jy", "cgs", "mJy"])})
        elif k == "rates":
            lo = rng.choice([10, 500, 3000])
            ops.append({"k": k, "lo": lo, "hi": lo + rng.choice([1000, 5000, 20000]), "bins": rng.choice([1, 2, 4, 9]), "sr": rng.choice([0, 1, 250])})
        else:
            ops.append({"k": k, "snr": [rng.choice([5000, 5001, 4999, rng.randint(0, 20000)]) for _ in range(rng.randint(1, 4))],
                        "mag": [rng.randint(18000, 26000) for _ in range(rng.randint(1, 4))]})
    return {"cfg": cfg, "ops": ops + [{"k": "sample"}]}


def populations(ctx, count):
    scripts = [scenario(ctx.rng) for _ in range(count)]
    for n, (s, log) in enumerate(zip(scripts, ctx.oracle("Population", scripts, {"MCKinds": {"x0"}, "MCLen": 1}))):
        if log is not None:
            replay(ctx, s["cfg"], s["ops"], log, n)
        if ctx.too_many():
            return
    ctx.sample(scripts[0])


# ---------------------------------------------------------------- laws without exact values
def black_bodies(rng):
    h, c, k = const.h.cgs.value, const.c.cgs.value, const.k_B.cgs.value
    ev, args = [], [rng.randint(-90000, 130000) for _ in range(3)]       # log10 of T w in cm K
    for _ in range(10):
        a, T, R = rng.choice(args), rng.randint(250000, 550000), rng.randint(700000, 1300000)
        w = a - T
        t, r, lam = (10 ** (x / 1e5) for x in (T, R, w))
        if rng.random() < 0.3:
            nu = c / lam
            v = math.pi * r * r * 2 * h * nu**3 / c**2 / math.expm1(h * nu / (k * t))
        else:
            v = float(np.asarray(black_body_luminosity_density_per_solid(t, r, np.array([lam, 2 * lam])))[0])
        ev.append({"T": T, "R": R, "w": w, "v": lg(v)})
    return {"cfg": {"law": "bb", "tol": 3}, "ev": ev}


def disk(m, mdot, nu, cosi, d):
    """Flux of a disk in nJy by summing black body rings (no part of the package)."""
    G, c, h, k, sb = (getattr(const, x).cgs.value for x in ("G", "c", "h", "k_B", "sigma_sb"))
    rin = 6 * G * m / c**2
    r0 = (7 / 6) ** 2 * rin
    t0 = 2**0.75 * (3 / 7) ** 1.75 * (G * m * mdot / (math.pi * sb * rin**3)) ** 0.25
    # x = h nu / k T grows with R^(3/4) from the inner edge
    lo = h * nu / (k * t0) * (rin / r0) ** 0.75
    x = np.exp(np.linspace(math.log(lo), math.log(700.0), 20001))
    R = r0 * (x * k * t0 / (h * nu)) ** (4 / 3)
    ring = 2 * h * nu**3 / c**2 / np.expm1(x) * 2 * math.pi * R * R * (4 / 3)
    return float(np.trapezoid(ring, np.log(x))) * cosi / d**2 * 1e32


def disks(rng):
    ev = []
    base = []
    for _ in range(2):
        m, a = rng.randint(600000, 1000000) + lg(M_SUN_G), rng.randint(2300000, 2800000)
        # log of k T / h at the inner edge is about 1/4 (log a - 2 log m) + const; the frequency is 1e-3 to 10 times that
        t0 = (a - 2 * m) // 4 + 2955736
        base.append((m, a, t0 + rng.randint(-300000, 100000)))
    for _ in range(8):
        m, a, nu = rng.choice(base)
        s, t = rng.randint(-60000, 60000), rng.randint(-20000, 20000)
        m, a, nu = m + s, a + 2 * s + 4 * t, nu + t
        ang, d = rng.choice([0.0, 60.0, 45.0, 80.0]), rng.randint(2000000, 2900000)
        M, A, NU, D = (10 ** (x / 1e5) for x in (m, a, nu, d))
        cosi = math.cos(math.radians(ang))
        e = {"m": m, "a": a, "nu": nu, "d": d, "cos": lg(cosi)}
        how = rng.random()
        if how < 0.35:
            v = disk(M, A, NU, cosi, D)
        elif how < 0.7 or C_M / NU * 1e10 > 15000:      # (in the far infrared the structure function is hundreds of magnitudes)
            v = float(np.ravel(AGN.compute_sed_standard_disk(Mdot=A, nu=np.array([NU, NU * 1.5]), rin_to_rg=6.0, i=math.radians(ang), d=D, M=M))[0])
        else:
            v = None
            wave = C_M / NU * 1e10
            msun = M / M_SUN_G
            model = AGN(t0=0.0, blackhole_mass=msun, edd_ratio=A / (1.4e18 * msun), redshift=0.0, distance=D / PARSEC_TO_CM, node_label="agn")
            model.set_parameter("inclination_rad", math.radians(ang))
            state = model.sample_parameters()
            waves = np.array([wave, 2 * wave])
            flux = model.evaluate_sed(np.array([0.0]), waves, state)[0]
            # At t0 the magnitudes differ from the mean by a common multiple of the structure function, which grows as the wavelength
            ratio = [-2.5 * math.log10(flux[i] / disk(M, A, NU / (1, 2)[i], cosi, D)) for i in (0, 1)]
            sf = [float(np.ravel(AGN.compute_structure_function_at_inf(state["agn"]["sf_inf_4000aa"], np.array([w]) * 1e-8))[0]) for w in waves]
            v = flux[0] * 10 ** (0.4 * ratio[1] / sf[1] * sf[0])
        ev.append({**e, "v": lg(v)})
    return {"cfg": {"law": "disk", "tol": 12}, "ev": ev}


def cosmologies(rng):
    om, ev = rng.randint(50, 950) / 1000, []
    zs = [rng.choice([100, 500, 1000, 5000, 10000, 30000]) + 7 * i for i in range(4)]
    name = rng.choice([None, None, "Planck18", "WMAP9"])
    for _ in range(10):
        z = rng.choice(zs)
        h0 = rng.choice([50.0, 70.0, 73.0, 100.0])
        cosmo = name or FlatLambdaCDM(H0=h0, Om0=om)
        e = {"h": 0 if name else lg(h0), "z": z, "zz": lg(1 + z / 1e4)}
        what = rng.choice(["dl", "dl", "model"] if name else ["dl", "model", "mod", "da"])
        n = rng.choice([1, 2, 3])
        zlist = [z / 1e4] + [rng.choice(zs) / 1e4 for _ in range(n - 1)]
        rng.shuffle(zlist)
        i = zlist.index(z / 1e4)
        values = GivenValueList(zlist) if n > 1 else z / 1e4
        if what == "dl":
            node = RedshiftDistFunc(values, cosmo, node_label="n")
            v = lg(np.ravel(node.generate(num_samples=n))[i])
        elif what == "model":
            node = ConstantSEDModel(brightness=1.0, redshift=values, cosmology=cosmo, node_label="m")
            v, what = lg(np.ravel(node.sample_parameters(num_samples=n)["m"]["distance"])[i]), "dl"
        elif what == "mod":
            node = DistModFromRedshift(values, H0=h0, Omega_m=om, node_label="n")
            v = int(round(float(np.ravel(node.generate(num_samples=n))[i]) / 5 * 1e5))
        else:
            ra, dec, sep = rng.uniform(0, 360), rng.uniform(-80, 80), rng.choice([10.0, 200.0])
            node = SNCoordGivenPhysicalSep(ra, dec, sep, values, H0=h0, Omega_m=om, node_label="n")
            state = node.sample_parameters(num_samples=n)
            ang = great_circle(ra, dec, np.ravel(state["n"]["ra"])[i], np.ravel(state["n"]["dec"])[i])
            v = lg(sep * 1e3 / float(ang))
        ev.append({**e, "what": what, "v": v})
    return {"cfg": {"law": "cosmo", "tol": 4}, "ev": ev}


def rates(rng):
    ev, om = [], rng.randint(50, 950) / 1000
    for i in range(2):
        lo, width = rng.choice([0.1, 0.3]), rng.choice([0.2, 1.0])
        for _ in range(4):
            sr, h0, bins = rng.choice([0.01, 1.0, 12.0]), rng.choice([50.0, 73.0, 100.0]), rng.choice([2, 5, 20])
            got, _ = num_snia_per_redshift_bin(lo, lo + width, bins, solid_angle=sr, H0=h0, Omega_m=om)
            ev.append({"id": 100 * i, "sr": lg(sr), "v": lg(float(np.sum(got)))})
    return {"cfg": {"law": "rates", "tol": 80}, "ev": ev}


def phi(x):
    return 0.5 * (1 + math.erf(x / math.sqrt(2)))


def counts(ctx, rng, seed):
    ev = []
    # SALT x1 given the mass of the host: standard normal from 10 on, damped below zero for lower masses
    n = 1000
    low = lambda x: math.sqrt(1 / 3) * phi(x * math.sqrt(3)) if x <= 0 else math.sqrt(1 / 3) / 2 + phi(x) - 0.5  # noqa: E731
    edges = [-6.0, -1.0, -0.4, 0.0, 0.5, 1.0, 6.0]
    for which, total in ((10, 1.0), (9, low(6.0))):
        masses = [rng.choice([10.0, 10.0, 11.5, 13.0]) if (which == 10) else rng.choice([9.999, 8.0, 7.0]) for _ in range(n)]
        other = [rng.choice([8.0, 12.0]) for _ in range(n)]
        mixed = [x for pair in zip(masses, other) for x in pair] if rng.random() < 0.6 else masses
        node = HostmassX1Func(GivenValueList(mixed), seed=seed, node_label="x1")
        rn = np.random.default_rng(seed) if rng.random() < 0.5 else None
        draws = np.asarray(node.sample_parameters(num_samples=len(mixed), rng_info=rn)["x1"]["function_node_result"])
        draws = draws[::2] if len(mixed) > n else draws
        # the same, one host at a time
        one = rng.choice([10.0, 10.0, 12.0] if which == 10 else [9.999, 8.0])
        node = HostmassX1Func(one if rng.random() < 0.5 else GivenValueList([one] * n), seed=seed, node_label="x1")
        single = np.array([float(node.sample_parameters(num_samples=1)["x1"]["function_node_result"]) for _ in range(n)])
        cdf = phi if which == 10 else (lambda x: low(x) / total)
        p = [int(round(1000 * (cdf(b) - cdf(a)))) for a, b in zip(edges, edges[1:])]
        for x in (draws, single):
            ev.append({"n": len(x), "c": [int(np.sum((x > a) & (x <= b))) for a, b in zip(edges, edges[1:])], "p": p})
    # directions of supernovae from the centres of their hosts
    ra, dec = rng.uniform(20, 340), rng.uniform(-60, 60)
    node = SNCoordGivenPhysicalSep(ra, dec, 30.0, 0.05, seed=seed, node_label="n")
    state = node.sample_parameters(num_samples=n)
    dx, dy = (state["n"]["ra"] - ra) * np.cos(np.radians(dec)), state["n"]["dec"] - dec
    octant = ((np.arctan2(dy, dx) + np.pi) / (np.pi / 4)).astype(int) % 8
    ev.append({"n": n, "c": np.bincount(octant, minlength=8).tolist(), "p": [125] * 8})
    # inclinations of accretion disks
    state = AGN(t0=0.0, blackhole_mass=1e9, edd_ratio=0.1, redshift=0.1, distance=1e8, node_label="a").sample_parameters(
        num_samples=n, rng_info=np.random.default_rng(seed))
    inc = state["a"]["inclination_rad"]
    ev.append({"n": n, "c": np.histogram(inc, bins=4, range=(0, np.pi / 2))[0].tolist(), "p": [250] * 4})
    return {"cfg": {"law": "count", "tol": 0}, "ev": ev}


def eddington(ctx, rng, seed):
    for kind in ("red", "blue"):
        ratio = rng.choice([1e-3, 0.1, 2.0])
        for n in (1, 5):
            a, b, c = (eddington_ratio_dist_fun(ratio, k, np.random.default_rng(seed), n) for k in (kind, kind.upper(), kind.title()))
            good = np.shape(a) == (() if n == 1 else (n,)) and np.array_equal(a, b) and np.array_equal(a, c) and np.all(np.asarray(a) > 0)
            ctx.steps += 1
            if not good:
                ctx.violation("the Eddington ratio distribution depends on the case of the type, or has the wrong size", {"a": a, "b": b, "c": c})
    # A random walk is continuous: two times a moment apart have nearly the same magnitude.
    t = rng.uniform(10, 500)
    walk = sample_damped_random_walk(np.array([t, t + 1e-7]), np.array([50.0, 90.0]), np.array([0.3, 0.2]), 0.0, rng=np.random.default_rng(seed))
    if np.any(np.abs(walk[1] - walk[0]) > 1e-3):
        ctx.violation("the damped random walk jumps between adjacent times", {"t": t, "seed": seed})
    for times, good in (([t, t + 1, t + 0.5], False), ([t, t], False), ([t, t + 1, t + 2], True), ([t], True), ([0.0, 1.0], True), ([0.0, t, t - 1], False)):
        try:
            ok = sample_damped_random_walk(np.array(times), np.array([50.0]), np.array([0.3]), 0.0).shape == (len(times), 1)
        except ValueError:
            ok = False
        ctx.steps += 1
        if ok != good:
            ctx.violation(f"the times of a random walk are {'rejected' if good else 'accepted'} wrongly", {"times": times})


def laws(ctx, count):
    traces = []
    for k in range(count):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            traces += [black_bodies(ctx.rng), cosmologies(ctx.rng)]
            if k % 4 == 0:
                traces += [disks(ctx.rng), rates(ctx.rng)]
            if k % 10 == 0:
                traces.append(counts(ctx, ctx.rng, ctx.seed * 1000 + k))
                eddington(ctx, ctx.rng, ctx.seed * 1000 + k)
    for trace, verdict in zip(traces, ctx.accept("Scaling", traces)):
        ctx.steps += len(trace["ev"])
        if verdict is not None:
            ctx.violation(f"{trace['cfg']['law']}: {verdict['clause']}", {"cfg": trace["cfg"], "ev": trace["ev"][: verdict["i"] + 1]})
        if ctx.too_many():
            return


def run(ctx):
    exhaustive(ctx, KINDS, 3, 4 if ctx.quick else 5)
    populations(ctx, 500 if ctx.quick else 8000)
    laws(ctx, 100 if ctx.quick else 1500)
    relations.relations(ctx, 16 if ctx.quick else 300, (relations.Agn,))
