"""Binds specs/Passbands.tla to Passband and PassbandGroup (property P12)."""

import itertools
import logging
import math
import os
import shutil
import tempfile

import numpy as np
import sncosmo
from astropy.io.votable import from_table, writeto
from astropy.table import Table
from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup

from vlib.core import aslist

CONST = {"MCDeltas": {2, 4}}
# The points of the lattice divide 720.
SMOOTH = [1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 16, 18, 20, 24, 30, 36, 40, 45, 48, 60]
NEAR = 2.0**-12  # Angstroms, above the merge threshold: different wavelengths
GAPS = {1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30}

logging.getLogger("lightcurvelynx").setLevel(logging.ERROR)
logging.getLogger("lightcurvelynx.astro_utils.passbands").setLevel(logging.ERROR)


class World:
    """A real group of passbands."""

    def __init__(self, style, tmp):
        self.style, self.tmp = style, tmp
        self.scale = [500.0, 100.0, 64.0, 1.0][style % 4]
        self.group = None
        self.count = 0
        self.near = False

    # ------------------------------------------------------------ construction
    def table(self, d):
        self.count += 1
        jit = 2.0**-18 * (self.count % 2) if self.style % 3 == 0 else 0.0  # below the merge threshold
        self.near = self.near or d["j"] > 0
        jit += d["j"] * NEAR
        # All transmissions are scaled: only their shape matters.
        k = [1.0, 0.125, 3.0][(self.style + self.count) % 3]
        return np.array([[x * self.scale + jit, t * k] for x, t in aslist(d["tab"])])

    def args(self, d):
        delta = d["delta"] * self.scale if d["delta"] else None
        q = aslist(d["q"])
        return delta, (q[0] / q[1] if q[0] or self.style % 2 else None)

    def given(self, d):
        """A Passband or the parameters of one."""
        tab = self.table(d)
        delta, q = self.args(d)
        how = (self.style + self.count) % 6
        nm = how in (1, 4) and self.scale != 64.0 and self.style % 3 != 0
        if nm:
            tab = np.column_stack([tab[:, 0] / 10.0, tab[:, 1]])
        units = "nm" if nm else "A"
        if how < 3:
            before = tab.copy()
            if how == 2 and units == "A" and np.all(np.diff(tab[:, 0]) > 0) and self.scale > 5 and tab[:2, 1].any() and tab[-2:, 1].any():     # sncosmo drops zeros
                band = sncosmo.Bandpass(tab[:, 0], tab[:, 1], name=f"check{self.style % 2}")
                sncosmo.register(band, force=True)
                pb = Passband.from_sncosmo(d["sv"], d["ft"], band.name if self.count % 2 else band)
                if pb != Passband(tab, d["sv"], d["ft"], trim_quantile=None):
                    raise AssertionError("the passband of a sncosmo filter is not the one of its table")
                pb.process_transmission_table(delta, q)
                return pb
            pb = Passband(tab, d["sv"], d["ft"], delta_wave=delta, trim_quantile=q, units=units)
            if self.count % 3 == 0 and self.scale > 5:
                try:
                    usual = Passband(tab, d["sv"], d["ft"], delta_wave=5.0, trim_quantile=1e-3, units=units)
                except ValueError:
                    return pb
                other = Passband(tab, d["sv"], d["ft"], delta_wave=delta, trim_quantile=q, units=units)
                if self.count % 2:
                    other.process_transmission_table()
                else:
                    PassbandGroup([other]).process_transmission_tables()
                if not (usual == other == Passband(tab, d["sv"], d["ft"], units=units)) or usual.delta_wave != other.delta_wave:
                    raise AssertionError("the documented defaults of the processing are not used")
            if not np.array_equal(before, tab):
                raise AssertionError("the given table is modified")
            return pb
        path = os.path.join(self.tmp, f"t{self.count}" + {3: ".dat", 4: ".csv", 5: ".xml"}[how])
        if how == 3:
            np.savetxt(path, tab)
        elif how == 4:
            np.savetxt(path, tab, delimiter=",")
        else:
            t = Table({"Wavelength": tab[:, 0], "Transmission": tab[:, 1]})
            t["Wavelength"].unit = "AA"
            writeto(from_table(t), path)
        par = {"survey": d["sv"], "filter_name": d["ft"], "table_path": path, "delta_wave": delta, "trim_quantile": q, "units": units}
        return par if (self.style + self.count) % 2 else Passband.from_file(**par)

    def do_build(self, op):
        flt = [str(x) for x in aslist(op["flt"][0])] if op["flt"] else None
        given = [self.given(d) for d in aslist(op["ds"])] if op["ds"] else list(self.group) if self.group is not None else []
        if len(given) == 1 and self.style % 2:
            given = given[0]
        self.group = PassbandGroup(given, filters=flt)

    def do_add(self, op):
        pb = self.given(op["d"])
        if isinstance(pb, dict):
            pb = Passband.from_file(**pb)
        self.group.add_passband(pb)

    def do_regrid(self, op):
        delta, q = self.args(op)
        self.group.process_transmission_tables(delta, q)

    # ------------------------------------------------------------ evaluation
    def lattice(self, waves, tag=False):
        """Lattice points; tagged, 2 x + 1 is the wavelength just above x."""
        xs = []
        for w in waves:
            x = int(round(w / self.scale))
            j = int(w - x * self.scale > NEAR / 2)
            if abs(w - x * self.scale - j * NEAR) > 1e-5:
                return [f"wavelength {w / self.scale}" for w in waves]
            xs.append(2 * x + j if tag else x)
        return xs

    def matrix(self, waves, f):
        xs = self.lattice(waves)
        return np.array([[row[x - 1] for x in xs] for row in f], dtype=[float, int][self.style % 2])

    def step(self, op):
        k = op["k"]
        try:
            if k in ("build", "add", "regrid"):
                getattr(self, "do_" + k)(op)
                return {"r": "ok"}
            g = self.group if self.group is not None else None
            if k == "mask":
                names = [str(x) for x in aslist(op["names"])]
                return {"r": "mask", "v": [bool(x) for x in g.mask_by_filter(names if self.style % 2 else np.array(names))]}
            f = [aslist(x) for x in aslist(op["f"])]
            mat = self.matrix(g.waves, f)
            before = mat.copy()
            if k == "all":
                res = g.fluxes_to_bandfluxes(mat)
                out = {"r": "fluxes", "v": [list(np.asarray(v, dtype=float)) for v in res.values()], "names": list(res)}
            else:
                name = op["name"]
                try:
                    pb = g[name]
                except KeyError as e:
                    if "Unknown" not in str(e) and name not in g:
                        return {"r": "lookup and membership disagree"}
                    try:
                        g.fluxes_to_bandflux(mat, name)
                    except (KeyError, ValueError):
                        return {"r": "ambiguous" if name in g else "unknown"}
                    return {"r": "a band flux for a rejected name"}
                if name not in g:
                    return {"r": "lookup and membership disagree"}
                own = self.matrix(pb.waves, f)
                res = [g.fluxes_to_bandflux(mat, name), pb.fluxes_to_bandflux(own)]
                both = pb.fluxes_to_bandflux(np.array([own, 2 * own, own]))
                res += [both[0], both[1] / 2, both[2]]
                out = {"r": "flux", "full": pb.full_name, "v": [[float(x) for x in v] for v in res]}
            if not np.array_equal(before, mat):
                return {"r": "the flux matrix is modified"}
            return out
        except (ValueError, KeyError) as e:
            return {"r": type(e).__name__, "text": str(e)[:120]}

    def windows(self, op):
        """The kept wavelength ranges, for the specification."""
        if self.group is None:
            return
        win = {n: [self.lattice(pb.waves[:1])[0], self.lattice(pb.waves[-1:])[0]] for n, pb in self.group.passbands.items()}
        if any(not isinstance(x, int) for v in win.values() for x in v):
            return
        if op["k"] == "regrid":
            op["win"] = {n: win[n] for n in win}
        elif op["k"] == "add":
            op["d"] = dict(op["d"])
            op["d"]["win"] = win[op["d"]["sv"] + "_" + op["d"]["ft"]]
        elif op["k"] == "build":
            op["ds"] = [dict(d) for d in op["ds"]]
            last = {d["sv"] + "_" + d["ft"]: d for d in aslist(op["ds"])}
            for n, d in last.items():
                if n in win:
                    d["win"] = win[n]

    def obs(self):
        g = self.group
        if g is None:
            return {"names": [], "waves": [], "filters": [], "own": []}
        own = []
        for pb in g:
            tab = pb.processed_transmission_table
            if not np.array_equal(tab[:, 0], pb.waves):
                own.append("the wavelengths of a passband and its response differ")
            own.append([[x, float(w) * self.scale] for x, w in zip(self.lattice(pb.waves), tab[:, 1])])
        names = [pb.full_name for pb in g]
        o = {"names": names, "waves": self.lattice(g.waves, tag=True), "filters": list(g.filters), "own": own}
        if len(g) != len(names) or list(g.passbands) != names:
            o["names"] = "length, iteration and keys disagree"
        if names and [round(x, 3) for x in g.wave_bounds()] != [round(g.waves[0], 3), round(g.waves[-1], 3)]:
            o["waves"] = "wave_bounds are not the ends of the grid"
        if any(b - a <= 0 for a, b in itertools.pairwise(g.waves)):
            o["waves"] = "the grid is not increasing"
        return o


def close(got, want, tol):
    return abs(got * want[1] - want[0]) <= tol * max(abs(want[0]), abs(want[1]) * 1e-3)


def compare(w, op, out, got, obs, gobs):
    """None, or what differs."""
    tol = 2e-5 if w.style % 3 == 0 or w.near else 1e-9
    if out["r"] == "flux":
        if got["r"] != "flux":
            return f"{op['name']} gives {got['r']}: {got.get('text')}"
        if got["full"] != out["full"]:
            return f"{op['name']} is looked up as {got['full']}, not {out['full']}"
        want = aslist(out["v"])
        for how, v in zip(["in the group", "alone", "alone, 3d", "alone, 3d", "alone, 3d"], got["v"]):
            if len(v) != len(want) or not all(close(a, b, tol) for a, b in zip(v, want)):
                return f"band flux of {op['name']} {how} is {v}, not {want}"
    elif out["r"] == "fluxes":
        if got["r"] != "fluxes" or got["names"] != list(obs["names"]):
            return f"band fluxes of all filters: {got}"
        for n, a, b in zip(got["names"], got["v"], aslist(out["v"])):
            if len(a) != len(b) or not all(close(x, y, tol) for x, y in zip(a, b)):
                return f"band flux of {n} is {a}, not {b}"
    elif out["r"] == "mask":
        if got["r"] != "mask" or got["v"] != aslist(out["v"]):
            return f"mask_by_filter: {got}, not {out}"
    elif out["r"] != got["r"]:
        return f"{op['k']} gives {got}, not {out['r']}"
    for k in ("names", "waves", "filters"):
        if gobs[k] != aslist(obs[k]):
            return f"{k} after {op['k']}: {gobs[k]}, not {obs[k]}"
    for n, a, b, norm in zip(gobs["names"], gobs["own"], aslist(obs["own"]), aslist(obs["norm"])):
        # The normalized response at x is 2 w / norm per lattice unit.
        if [x[0] for x in a] != [x[0] for x in b] or not all(close(x[1], [2 * y[1], norm], tol) for x, y in zip(a, b)):
            return f"response of {n} is {a}, not {b} / {norm}"
    return None


def mc_replay(ctx, logs):
    for n, log in enumerate(logs):
        tmp = tempfile.mkdtemp(prefix="pb")
        try:
            w = World(n, tmp)
            for e in log[1:]:
                bad = one(w, e["op"], e["out"], e["obs"])
                ctx.steps += 1
                if bad:
                    ctx.violation(bad, {"style": n, "history": [x["op"] for x in log[1:]]})
                    break
        finally:
            shutil.rmtree(tmp)
        ctx.traces += 1
        if ctx.too_many():
            return
    ctx.sample([x["op"]["k"] for x in logs[len(logs) // 2][1:]])


def one(w, op, out, obs):
    got = w.step(op)
    return compare(w, op, out, got, obs, w.obs())


# ---------------------------------------------------------------- random histories
def grid(tab, delta):
    xs = sorted({x for x, _ in tab})
    if not delta:
        return xs
    n = (xs[-1] - xs[0]) // delta
    if n == 0:
        return xs[:1]
    if (xs[-1] - xs[0]) % n:
        return None
    return [xs[0] + k * ((xs[-1] - xs[0]) // n) for k in range(n + 1)]


def usable(tab, delta, q):
    """The grid stays on the lattice and the trimmed response is not empty."""
    xs = grid(tab, delta)
    if xs is None or any(x not in SMOOTH for x in xs):
        return False
    t = np.interp(xs, sorted({x for x, _ in tab}), [y for k, (x, y) in enumerate(tab) if k == 0 or tab[k - 1][0] != x])
    area = np.cumsum((t[1:] + t[:-1]) * np.diff(xs) / 2)
    area = np.insert(area, 0, 0.0)
    if area[-1] == 0:
        return False
    if q[0] == 0:
        return True
    f = q[0] / q[1]
    inside = [k for k in range(len(xs)) if f * 1.001 < area[k] / area[-1] < 1 - f * 1.001]
    return len(inside) >= 2


class Gen:
    def __init__(self, rng):
        self.rng = rng

    def passband(self, sv=None, ft=None):
        r = self.rng
        while True:
            n = r.choice([2, 2, 3, 4, 5, 7])
            kind = r.random()
            if kind < 0.5:
                lo, step = r.choice([(1, 1), (2, 1), (2, 2), (4, 2), (3, 3), (4, 4), (5, 5), (10, 10), (8, 1), (12, 12), (15, 15), (8, 4), (12, 3), (20, 20)])
                xs = [lo + step * k for k in range(n)]
            else:
                xs = sorted(r.sample(SMOOTH[: r.choice([6, 12, len(SMOOTH)])], min(n, 6)))
            if len(xs) < 2 or any(x not in SMOOTH for x in xs) or any(b - a not in GAPS for a, b in itertools.pairwise(xs)):
                continue
            tab = [[x, r.randrange(0, 7)] for x in xs]
            if r.random() < 0.3:
                tab[0][1] = tab[-1][1] = 0
            if all(t == 0 for _, t in tab[1:-1]) and r.random() < 0.9:
                tab[len(tab) // 2][1] = 3
            if r.random() < 0.1:  # a repeated wavelength; the sum of its values is even
                k = r.randrange(len(tab))
                tab.insert(k, [tab[k][0], (tab[k][1] + 2) % 7 if (tab[k][1] + 2) % 7 % 2 == tab[k][1] % 2 else tab[k][1]])
            for _ in range(6):
                delta = r.choice([0, 0, 1, 2, 3, 4, 5, 10])
                q = r.choice([[0, 1], [0, 1], [1, 1000], [1, 20], [1, 8], [1, 4]])
                xs = grid(tab, delta)
                if xs and len(xs) >= 2 and usable(tab, delta, q):
                    return {"sv": sv or r.choice(["A", "B", "LSST"]), "ft": ft or r.choice(["g", "r", "i", "A_r"]), "tab": tab, "delta": delta, "q": q,
                            "win": [], "j": int(r.random() < 0.15)}

    def bad(self):
        r = self.rng
        d = self.passband()
        d["q"] = [0, 1]
        if r.random() < 0.5:
            d["tab"] = [[x, 0] for x, _ in d["tab"]]
        else:
            d["delta"] = 80
        return d

    def history(self, length):
        r = self.rng
        ops, pbs = [], {}
        top = 60

        def put(d):
            pbs[d["sv"] + "_" + d["ft"]] = d

        while len(ops) < length:
            x = r.random()
            if not pbs or x < 0.12:
                if pbs and r.random() < 0.6:
                    ds, src = [], list(pbs.values())
                else:
                    ds = src = [self.passband() for _ in range(r.choice([1, 2, 3, 4, 6]))]
                names = {d["sv"] + "_" + d["ft"]: d for d in src}
                flt = []
                if r.random() < 0.5 or not ds:
                    pool = list(names) + [d["ft"] for d in src] + (["zz"] if r.random() < 0.2 else [])
                    flt = [[r.choice(pool) for _ in range(r.choice([1, 1, 2, 3]))]]
                    keep = {n: d for n, d in names.items() if n in flt[0] or d["ft"] in flt[0]}
                    fine = all(f in names or any(d["ft"] == f for d in src) for f in flt[0])
                else:
                    keep, fine = names, True
                ops.append({"k": "build", "ds": ds, "flt": flt})
                if fine:
                    pbs = dict(keep)
                elif not pbs:
                    ops.pop()
            elif x < 0.24:
                if r.random() < 0.15:
                    ops.append({"k": "add", "d": self.bad()})
                else:
                    old = r.choice(list(pbs.values()))
                    d = self.passband(old["sv"], old["ft"]) if r.random() < 0.4 else self.passband()
                    ops.append({"k": "add", "d": d})
                    put(d)
            elif x < 0.36:
                for _ in range(8):
                    delta, q = r.choice([0, 1, 2, 3, 4, 5, 10]), r.choice([[0, 1], [1, 1000], [1, 20], [1, 8]])
                    if all(len(grid(d["tab"], delta) or [1]) >= 2 and usable(d["tab"], delta, q) for d in pbs.values()):
                        ops.append({"k": "regrid", "delta": delta, "q": q, "win": []})
                        break
            else:
                f = [[r.randrange(0, 10) for _ in range(top)] for _ in range(r.choice([1, 2, 3]))]
                if x < 0.5:
                    ops.append({"k": "all", "f": f})
                elif x < 0.58:
                    names = list(pbs) + ["g", "r", "i", "A_r", "A", "LSST_", "zz", "", "R"]
                    ops.append({"k": "mask", "names": [r.choice(names) for _ in range(r.choice([1, 3, 8]))]})
                else:
                    name = r.choice(list(pbs) + [d["ft"] for d in pbs.values()] + ["g", "r", "A_r", "zz"])
                    ops.append({"k": "flux", "name": name, "f": f})
        return {"cfg": {}, "ops": ops}


def random_histories(ctx, count, length):
    gen = Gen(ctx.rng)
    scripts = [gen.history(length) for _ in range(count)]
    results = []
    tmp = tempfile.mkdtemp(prefix="pb")
    try:
        for n, script in enumerate(scripts):
            w = World(n, tmp)
            res = []
            if w.scale < 10:
                for d in (d for op in script["ops"] for d in aslist(op.get("ds", [])) + [op[k] for k in ("d",) if k in op]):
                    d["j"] = 0
            for op in script["ops"]:
                got = w.step(op)
                if got["r"] == "ok":
                    w.windows(op)
                res.append((got, w.obs()))
            results.append((w, res))
    finally:
        shutil.rmtree(tmp)
    logs = ctx.oracle("Passbands", scripts, CONST, chunk=1500, observed=True)
    for script, log, (w, res) in zip(scripts, logs, results):
        if log is None:
            continue
        for op, e, (got, gobs) in zip(script["ops"], log[1:], res):
            ctx.steps += 1
            bad = compare(w, op, e["out"], got, e["obs"], gobs)
            if bad:
                short = [{k: v for k, v in o.items() if k != "f"} for o in script["ops"]]
                ctx.violation(bad, {"style": w.style, "op": op, "script": short})
                break
        ctx.traces += 1
        if ctx.too_many():
            return
    ctx.sample([{k: v for k, v in o.items() if k != "f"} for o in scripts[0]["ops"]][:3])
