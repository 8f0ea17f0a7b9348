"""Binds specs/Noise.tla to the observation tables' zero points and flux errors (property P11)."""

import math
import os
import shutil
import sqlite3
import tempfile
import warnings

import numpy as np
import pandas as pd
from lightcurvelynx.astro_utils.mag_flux import flux2mag, mag2flux
from lightcurvelynx.obstable import roman_obstable
from lightcurvelynx.obstable.fake_obs_table import FakeObsTable
from lightcurvelynx.obstable.opsim import OpSim, oversample_opsim
from lightcurvelynx.obstable.roman_obstable import RomanObsTable
from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable

from vlib.core import aslist

CONST = {"MCKinds": {"fake", "opsim", "ztf", "roman"}}
FILTERS = ["?", "LSST_i", "g", "r", "z"]
PLACES = [(10.0, -20.0), (200.0, 40.0)]
DAY0 = 60000
G = math.pi / (2 * math.log(2))
COLS = {"opsim": {"airmass": "airmass", "exptime": "visitExposureTime", "seeing": "seeingFwhmEff", "zp": "zp_nJy",
                  "skybrightness": "skyBrightness", "nexposure": "numExposures", "ra": "fieldRA", "dec": "fieldDec",
                  "time": "observationStartMJD"},
        "ztf": {"maglim": "maglim", "sky": "scibckgnd", "fwhm": "fwhm", "exptime": "exptime", "zp": "zp_nJy", "time": "obsmjd"},
        "roman": {"ra": "RA", "dec": "DEC", "filter": "BANDPASS"}, "fake": {}}


def fl(q):
    return q[0] / q[1] if q[1] else float("nan")


def depth(v):
    """The number of electrons of a 5 sigma source over a background of v electrons^2."""
    return (25 + math.sqrt(625 + 100 * v)) / 2


def value(terms):
    total = 0.0
    for t in aslist(terms):
        total += fl(t["c"]) * 10 ** (-0.4 * fl(t["m"])) * G ** t["g"] * (depth(2.266 * fl(t["v"])) ** t["f"] if t["f"] else 1)
    return total


def number(x, style):
    x = fl(x)
    return int(x) if x == int(x) and style % 2 else x


def setting(v, style, filters):
    if v["t"] == "num":
        return number(v["v"][0][1], style)
    return {filters[f]: number(x, style + k) for k, (f, x) in enumerate(aslist(v["v"]))}


class World:
    filters, places = FILTERS, PLACES
    more = {}  # further columns and settings
    settings = {}
    alias = {}  # further columns known under two names

    def when(self, time):
        return float(DAY0 + time)

    def __init__(self, cfg, style):
        self.style = style
        self.kind = cfg["kind"]
        self.made = "ok"
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.obj = getattr(self, "make_" + self.kind)(cfg)
        except (ValueError, KeyError) as e:
            self.made = type(e).__name__
            self.text = str(e)

    def column(self, q, style):
        v = [fl(x) for x in aslist(q)]
        if v and all(x == int(x) for x in v if x == x) and style % 3 == 0 and not any(x != x for x in v):
            return np.array(v, dtype=int)
        return np.array(v)

    def table(self, cfg, names):
        n, style = cfg["n"], self.style
        places = [self.places[p] for p in aslist(cfg["pos"])]
        data = {"ra": [p[0] + 0.01 * k for k, p in enumerate(places)], "dec": [p[1] - 0.02 * k for k, p in enumerate(places)],
                "time": [self.when(t) for t in aslist(cfg["time"])], "filter": [self.filters[f] for f in aslist(cfg["filter"])],
                "tag": np.arange(n), **self.more}
        for k, v in cfg["col"].items():
            data[k] = self.column(v, style)
        self.names = names if style % 4 else {k: "x_" + v for k, v in names.items()}
        self.names = {**self.names, **self.alias}
        data = {self.names.get(k, k): np.array(v, dtype=object if n == 0 and k == "filter" else None) for k, v in data.items()}
        if style % 3 == 0 and n:
            return dict(data)
        return pd.DataFrame(data) if style % 3 == 1 else pd.DataFrame(data, index=np.arange(n)[::-1] * 5 + 3)

    def kwargs(self, cfg, skip=()):
        return {**self.settings, **{k: setting(v, self.style, self.filters) for k, v in cfg["sv"].items() if k not in skip}}

    def colmap(self):
        if self.style % 4 and self.kind != "fake" and not self.alias:
            return None
        return {k: v for k, v in self.names.items()} if self.names else None

    def make_fake(self, cfg):
        names = {} if self.style % 5 else {"zp": "zpt", "sky": "background", "time": "mjd", "exptime": "texp"}
        return FakeObsTable(self.table(cfg, names), colmap=self.colmap(), **self.kwargs(cfg))

    def make_opsim(self, cfg):
        table = self.table(cfg, COLS["opsim"])
        if isinstance(table, dict):
            table["observationId"] = np.arange(cfg["n"]) + 100
        else:
            table["observationId"] = np.arange(cfg["n"]) + 100
        if self.style % 7 == 1 and self.style % 4 and not self.alias:
            return self.through_db(table, "observations", OpSim.from_db, self.kwargs(cfg))
        return OpSim(table, colmap=self.colmap(), **self.kwargs(cfg))

    def make_ztf(self, cfg):
        table = self.table(cfg, COLS["ztf"])
        col = self.names["fwhm"]
        missing = "fwhm" in cfg["col"] and [k for k, q in enumerate(aslist(cfg["col"]["fwhm"])) if not q[1]]
        if missing and self.style % 2:
            vals = table[col].astype(object)
            for k in missing:
                (vals if isinstance(table, dict) else vals.iloc)[k] = ""
            table[col] = vals
        if self.style % 5 == 2 and self.style % 4 and cfg["n"] and not self.more:
            # The date of the observation instead of its MJD
            days = table["obsmjd"] if isinstance(table, dict) else table["obsmjd"].to_numpy()
            dates = [str(np.datetime64("2023-02-25") + int(d - DAY0)) + " 00:00:00.000" for d in days]
            table = {k: v for k, v in table.items() if k != "obsmjd"} if isinstance(table, dict) else table.drop(columns="obsmjd")
            table["obsdate"] = dates
        if self.style % 7 == 1 and self.style % 4 and not cfg["sv"] and not self.settings:
            return self.through_db(table, "exposures", ZTFObsTable.from_db, {})
        return ZTFObsTable(table, colmap=self.colmap(), **self.kwargs(cfg))

    def through_db(self, table, name, load, kw):
        tmp = tempfile.mkdtemp(prefix="vnoise")
        try:
            path = os.path.join(tmp, "t.db")
            con = sqlite3.connect(path)
            # A number column may hold empty strings (in a column of type TEXT the numbers would become strings)
            real = {"fwhm": "REAL"} if name == "exposures" else None
            pd.DataFrame(table).to_sql(name, con, index=False, dtype=real)
            con.close()
            return load(path, **kw)
        finally:
            shutil.rmtree(tmp)

    def make_roman(self, cfg):
        ch = {k: [(a, fl(x)) for a, x in aslist(v)] for k, v in cfg["ch"].items()}
        real = roman_obstable._get_roman_char
        names = lambda k: [FILTERS[f] for f, _ in ch[k]]  # noqa: E731
        vals = lambda k: [x for _, x in ch[k]]  # noqa: E731
        tables = {"psf_table": pd.DataFrame({"Filter": names("psf"), "N_Eff_Pix": vals("psf")}),
                  "zp_table": pd.DataFrame({"element": names("zp"), "ABMag": vals("zp")}),
                  "thermal_table": pd.DataFrame({"filter": names("thermal"), "rate": vals("thermal")}),
                  "zodiacal_min_table": pd.DataFrame({"filter": names("zodi"), "rate": vals("zodi")})}
        table = pd.DataFrame(self.table(dict(cfg, col={}), COLS["roman"])).drop(columns=["time", "x_time"], errors="ignore")
        table = table.rename(columns={"x_RA": "RA", "x_DEC": "DEC", "x_BANDPASS": "BANDPASS"})
        table["MA_TABLE_NUMBER"] = aslist(cfg["ma"])
        table["PASS"] = [3 + 2 * t for t in aslist(cfg["time"])]
        before = table.copy()
        tmp = tempfile.mkdtemp(prefix="vnoise")
        try:
            path = os.path.join(tmp, "ma.csv")
            pd.DataFrame({"MATableNumber": [a for a, _ in ch["ma"]], "Exptime": vals("ma")}).to_csv(path)
            # The characterization is published on a web site; the sandbox has no network
            roman_obstable._get_roman_char = lambda: tables
            obj = RomanObsTable(table, ma_table_path=path, **self.kwargs(cfg))
        finally:
            roman_obstable._get_roman_char = real
            shutil.rmtree(tmp)
        if not before.equals(table):
            raise ValueError("the caller's table is changed")
        return obj

    # ------------------------------------------------------------ operations
    def step(self, op):
        self.style += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return getattr(self, "do_" + op["k"])(op)
        except (ValueError, KeyError, IndexError) as e:
            return {"r": type(e).__name__, "text": str(e)[:100]}

    def do_err(self, op):
        idx = [i - 1 for i in aslist(op["idx"])]
        flux = np.array([fl(f) for f in aslist(op["flux"])])
        const = self.kind == "fake" and self.obj.const_flux_error is not None
        before = flux.copy()
        if len(idx) == 1 and self.style % 3 == 0 and not const:
            res = [self.obj.bandflux_error_point_source(flux if self.style % 2 else float(flux[0]), idx[0])]
        elif len(set(flux.tolist())) == 1 and self.style % 3 == 1:
            res = self.obj.bandflux_error_point_source(float(flux[0]), np.array(idx))
        else:
            res = self.obj.bandflux_error_point_source(flux, np.array(idx, dtype=int) if self.style % 2 else idx)
        if not np.array_equal(before, flux):
            return {"r": "the given fluxes are changed"}
        res = np.asarray(res, dtype=float).reshape(-1)
        return {"r": "err", "e": [float(x) ** 2 for x in res]}

    def do_zp(self, op):
        return {"r": "zp", "e": [float(x) for x in self.obj["zp"]]}

    def do_keep(self, op):
        rows = sorted({r - 1 for r in aslist(op["rows"])})
        if self.style % 2:
            self.obj.filter_rows(np.array(rows, dtype=int))
        else:
            self.obj.filter_rows(np.array([k in rows for k in range(len(self.obj))], dtype=bool))
        return {"r": "ok"}

    def do_set(self, op):
        self.obj.add_column(op["name"], self.column(op["vals"], self.style), overwrite=True)
        return {"r": "ok"}

    def do_value(self, op):
        self.obj.survey_values[op["name"]] = fl(op["v"])
        return {"r": "ok"}

    def do_over(self, op):
        kw = {}
        lo, hi, bands = aslist(op["lo"]), aslist(op["hi"]), aslist(op["bands"])
        if lo or hi or self.style % 2:
            kw["time_range"] = (DAY0 + lo[0] if lo else None, DAY0 + hi[0] if hi else None)
        if bands:
            kw["bands"] = [FILTERS[b] for b in bands]
        if op["random"]:
            kw["strategy"] = "random"
        tags = list(self.obj["tag"])
        new = oversample_opsim(self.obj, pointing=PLACES[op["at"]], delta_t=op["dt"] / 4, **kw)
        # which of the rows each new row has the conditions of
        picks = [tags.index(int(t)) + 1 for t in new["tag"]]
        ids = list(new["observationId"])
        if len(set(ids)) != len(ids) or set(ids) & set(self.obj["observationId"]):
            return {"r": "observation ids are not new"}
        place = PLACES[op["at"]]
        if not all((r, d) == place for r, d in zip(new["ra"], new["dec"])):
            return {"r": "observations elsewhere"}
        self.obj = new
        # give the rows tags of their own again, for the next operation
        new.add_column("tag", np.arange(len(new)) + 1000 * (1 + max(tags)), overwrite=True)
        return {"r": "table", "n": len(new), "t4": [(t - DAY0) * 4 for t in new["time"]],
                "filter": [FILTERS.index(f) for f in new["filter"]], "picks": picks}

    def do_mag(self, op):
        mags = np.array([fl(m) for m in aslist(op["mags"])])
        flux = mag2flux(mags)
        if not np.allclose(flux2mag(flux), mags, rtol=0, atol=1e-9):
            return {"r": "flux2mag is not the inverse of mag2flux"}
        return {"r": "mag", "e": [float(x) for x in flux]}

    def obs(self):
        return {"made": self.made, "n": len(self.obj) if self.made == "ok" else 0}


def agree(want, got):
    """Compare an outcome of the specification with that of the code."""
    if want["r"] != got["r"]:
        return f"{want['r']} expected"
    if "e" in want:
        vals = [value(t) for t in aslist(want["e"])]
        if len(vals) != len(got["e"]):
            return f"{len(vals)} values expected"
        for k, (a, b) in enumerate(zip(vals, got["e"])):
            size = value([dict(t, c=[abs(t["c"][0]), t["c"][1]]) for t in aslist(want["e"][k])])
            if want["r"] == "err" and a < 1e-6 * size and size > 0:
                continue  # no variance: the flux is more negative than noise explains
            if not (abs(a - b) <= 1e-8 * size + 1e-14):
                return f"entry {k}: {'squared error ' if want['r'] == 'err' else ''}{a} expected, got {b}"
    for key in ("n", "t4", "filter"):
        if key in want and aslist(want[key]) != aslist(got.get(key)):
            return f"{key} {want[key]} expected"
    return None


def replay(ctx, cfg, ops, log, style, world=None, outs=None):
    cfg = dict(cfg, sv=cfg["sv"] or {}, col=cfg["col"] or {})
    if outs is None:
        world = World(cfg, style)
        obs0 = world.obs()
    else:
        obs0 = world
    if log[0]["obs"] != obs0:
        ctx.violation(f"construction: {log[0]['obs']} expected, got {obs0}", {"cfg": cfg, "style": style})
        return
    for k, op in enumerate(ops):
        got = outs[k] if outs is not None else world.step(op)
        ctx.steps += 1
        why = agree(log[k + 1]["out"], got)
        if why is None and outs is None and world.obs() != log[k + 1]["obs"]:
            why = f"{log[k + 1]['obs']} expected, got {world.obs()}"
        if why:
            ctx.violation(f"{op['k']}: {why}", {"cfg": cfg, "style": style, "ops": ops[:k + 1], "got": got})
            return
    ctx.traces += 1
    ctx.sample({"cfg": cfg, "ops": ops[:3]})


def exhaustive(ctx, depth):
    for n, log in enumerate(ctx.explore("Noise", depth, CONST)):
        log = aslist(log)
        ops = [e["op"] for e in log[1:]]
        for style in ({n % 60, (n * 7 + 11) % 60} if ctx.quick else {n % 60, (n * 7 + 11) % 60, (n * 13 + 5) % 60}):
            replay(ctx, log[0]["cfg"], ops, log, style)
            if ctx.too_many():
                return


# ---------------------------------------------------------------- random tables
def fr(rng, lo, hi, dens=(1, 1, 2, 4)):
    d = rng.choice(dens)
    n = rng.randint(lo * d, hi * d)
    g = math.gcd(n, d) or 1
    return [n // g, d // g]


def mag(rng, lo, hi):
    n = rng.randint(lo * 10, hi * 10)
    g = math.gcd(n, 10)
    return [n // g, 10 // g]


def per_filter(rng, used, draw, extra=(1, 2, 3, 4)):
    keys = list(used) + [f for f in extra if f not in used and rng.random() < 0.4]
    rng.shuffle(keys)
    return {"t": "map", "v": [[f, draw()] for f in keys]}


def config(rng, kinds=("fake", "fake", "opsim", "ztf", "roman"), filters=(1, 2, 3, 4), wrong=0.15):
    kind = rng.choice(kinds)
    n = rng.choice([1, 2, 3, 4, 5, 6]) if rng.random() < 0.97 or kind == "roman" else 0
    pool = rng.sample(filters, min(len(filters), rng.choice([1, 2, 2, 3])))
    flt = [rng.choice(pool) for _ in range(n)]
    used = sorted(set(flt))
    cfg = {"kind": kind, "n": n, "filter": flt, "time": [rng.randint(0, 6) for _ in range(n)],
           "pos": [int(rng.random() < 0.3) for _ in range(n)], "col": {}, "sv": {}, "ch": {}, "ma": []}
    col = lambda draw: [draw() for _ in range(n)]  # noqa: E731
    num = lambda v: {"t": "num", "v": [[0, v]]}  # noqa: E731
    if kind == "fake":
        either = lambda draw: num(draw()) if rng.random() < 0.5 else per_filter(rng, used, draw, filters)  # noqa: E731
        draws = {"sky": lambda: fr(rng, 0, 30), "exptime": lambda: fr(rng, 1, 60, (1, 2)), "nexposure": lambda: [rng.randint(1, 4), 1],
                 "psf_footprint": lambda: fr(rng, 1, 9), "fwhm_px": lambda: fr(rng, 1, 4)}
        for name, draw in draws.items():
            r = rng.random()
            if r < 0.35:
                cfg["col"][name] = col(draw)
            if (0.25 < r < 0.8 and name not in ("psf_footprint",)) or (name == "psf_footprint" and 0.6 < r < 0.85):
                cfg["sv"][name] = either(draw)
        cfg["sv"].setdefault("exptime", num([30, 1]))
        cfg["sv"].setdefault("nexposure", num([1, 1]))
        if rng.random() < 0.25:
            cfg["col"]["zp"] = col(lambda: fr(rng, 1, 5))
        if rng.random() < 0.9 or "zp" not in cfg["col"]:
            cfg["sv"]["zp_per_band"] = per_filter(rng, used, lambda: fr(rng, 1, 5), filters)
        if rng.random() < 0.2:
            cfg["sv"]["const_flux_error"] = either(lambda: fr(rng, 0, 9))
        if rng.random() < 0.7:
            cfg["sv"]["read_noise"] = num(fr(rng, 0, 9))
        if rng.random() < 0.6:
            cfg["sv"]["dark_current"] = num(fr(rng, 0, 2))
        if rng.random() < wrong and n:
            # something wrong with one of the settings
            maps = [k for k, v in cfg["sv"].items() if v["t"] == "map"]
            if maps and rng.random() < 0.6:
                name = rng.choice(maps)
                v = cfg["sv"][name]["v"]
                if rng.random() < 0.5:
                    v.remove(rng.choice(v))
                else:
                    rng.choice(v)[1] = [0 if name == "sky" else rng.choice([0, -1]), 1]
            else:
                cfg["sv"].pop(rng.choice(["sky", "zp_per_band", "fwhm_px"]), None)
    elif kind == "opsim":
        cfg["col"] = {"airmass": col(lambda: fr(rng, 1, 3, (1, 2, 5))), "exptime": col(lambda: fr(rng, 1, 40, (1, 2))),
                      "seeing": col(lambda: rng.choice([[1, 2], [3, 5], [4, 5], [1, 1], [6, 5]])),
                      "skybrightness": [], "nexposure": col(lambda: [rng.randint(1, 3), 1])}
        mags = rng.sample(range(180, 230), n)
        cfg["col"]["skybrightness"] = [[m // math.gcd(m, 10), 10 // math.gcd(m, 10)] for m in mags]
        if rng.random() < 0.2:
            cfg["col"]["zp"] = col(lambda: fr(rng, 1, 5))
        cfg["sv"]["zp_per_sec"] = per_filter(rng, used, lambda: mag(rng, 25, 29) if rng.random() < 0.7 else [rng.randint(25, 29), 1], filters)
        cfg["sv"]["ext_coeff"] = per_filter(rng, used, lambda: rng.choice([[-1, 2], [-1, 5], [-1, 10], [0, 1]]), filters)
        if rng.random() < 0.4:
            cfg["sv"]["read_noise"] = num(fr(rng, 0, 9))
        if rng.random() < 0.4:
            cfg["sv"]["dark_current"] = num(rng.choice([[0, 1], [1, 2], [1, 5], [1, 1]]))
        if rng.random() < 0.3:
            cfg["sv"]["pixel_scale"] = num(rng.choice([[1, 2], [1, 4], [1, 1], [3, 10]]))
        if rng.random() < wrong / 3 and "zp" not in cfg["col"]:
            cfg["col"].pop(rng.choice(["airmass", "exptime"]))
    elif kind == "ztf":
        cfg["col"] = {"maglim": col(lambda: mag(rng, 18, 22)), "sky": col(lambda: fr(rng, 0, 200, (1,))),
                      "fwhm": col(lambda: fr(rng, 1, 4, (1, 2))), "exptime": col(lambda: fr(rng, 1, 60, (1, 2)))}
        if rng.random() < 0.2:
            cfg["col"]["zp"] = col(lambda: fr(rng, 1, 5))
        elif rng.random() < 0.25:
            for k in range(n):
                if rng.random() < 0.3:
                    cfg["col"]["fwhm"][k] = [0, 0]
        for name, draw in (("gain", lambda: fr(rng, 1, 9, (1, 5))), ("read_noise", lambda: fr(rng, 0, 12, (1, 2))),
                           ("dark_current", lambda: rng.choice([[0, 1], [1, 2], [1, 1]]))):
            if rng.random() < 0.4:
                cfg["sv"][name] = num(draw())
        if rng.random() < wrong / 3 and "zp" not in cfg["col"]:
            cfg["col"].pop(rng.choice(["maglim", "sky", "fwhm", "exptime"]))
    else:
        cfg["ma"] = [rng.choice([3, 4, 7]) for _ in range(n)]
        allf = lambda draw: per_filter(rng, used, draw, filters)  # noqa: E731
        cfg["ch"] = {"zp": allf(lambda: mag(rng, 24, 28))["v"], "psf": allf(lambda: fr(rng, 4, 12))["v"],
                     "zodi": allf(lambda: rng.choice([[1, 2], [1, 4], [1, 5], [3, 10]]))["v"],
                     "thermal": allf(lambda: rng.choice([[0, 1], [1, 100], [1, 20], [1, 4]]))["v"],
                     "ma": [[a, rng.choice([[76, 25], [152, 25], [228, 25], [76, 1], [152, 1]])] for a in (3, 4, 7)]}
        rng.shuffle(cfg["ch"]["ma"])
        if rng.random() < 0.5:
            cfg["sv"]["zodi_level"] = num(fr(rng, 1, 6, (1, 2)))
        if rng.random() < 0.4:
            cfg["sv"]["dark_current"] = num(rng.choice([[0, 1], [1, 2], [1, 5]]))
    return cfg


SETTABLE = {"fake": ("sky", "exptime", "nexposure"), "opsim": ("seeing", "exptime", "nexposure"), "ztf": ("sky", "fwhm", "exptime"), "roman": ()}


def operations(rng, cfg, world, count):
    """Run a history of random operations on the real code, recording what it chose."""
    ops, outs = [], []
    for _ in range(count):
        n = len(world.obj) if world.made == "ok" else 0
        kinds = ["mag", "zp"] + ["err"] * 6 + (["keep"] if n > 1 else []) + (["over"] * 3 if cfg["kind"] == "opsim" else []) + ["set", "value"]
        k = rng.choice(kinds) if world.made == "ok" else "mag"
        if k == "err":
            m = rng.choice([0, 1, 1, 2, 3, n, n + 2]) if n else 0
            idx = rng.sample(range(1, n + 1), m) if m <= n and rng.random() < 0.6 else [rng.randint(1, n) for _ in range(m)] if n else []
            low = rng.choice([0, 0, -3, -60])  # negative fluxes, as of a difference image
            flux = [fr(rng, low, 300 if rng.random() < 0.8 else 10) for _ in idx] if rng.random() < 0.8 else [fr(rng, low, 300)] * len(idx)
            op = {"k": "err", "idx": idx, "flux": flux}
        elif k == "keep":
            op = {"k": "keep", "rows": sorted(rng.sample(range(1, n + 1), rng.randint(1, n)))}
        elif k == "set":
            names = [x for x in SETTABLE[cfg["kind"]] if cfg["kind"] != "fake" or "const_flux_error" not in cfg["sv"]]
            names = [x for x in names if cfg["kind"] == "fake" or x in cfg["col"]]
            if not names or not n:
                continue
            name = rng.choice(names)
            draw = (lambda: [rng.randint(1, 3), 1]) if name == "nexposure" else (lambda: rng.choice([[1, 2], [4, 5], [1, 1], [2, 1], [3, 2]]))
            op = {"k": "set", "name": name, "vals": [draw() for _ in range(n)]}
        elif k == "value":
            if cfg["kind"] != "roman":
                continue
            op = {"k": "value", "name": "zodi_level", "v": fr(rng, 1, 6, (1, 2))}
        elif k == "over":
            at = int(rng.random() < 0.3)
            op = {"k": "over", "at": at, "lo": [rng.randint(0, 3)] if rng.random() < 0.3 else [], "hi": [rng.randint(2, 7)] if rng.random() < 0.3 else [],
                  "dt": rng.choice([2, 3, 4, 6]), "bands": rng.sample(sorted(set(cfg["filter"])), rng.randint(1, len(set(cfg["filter"])))) if cfg["n"] and rng.random() < 0.4 else [],
                  "random": rng.random() < 0.4, "pick": []}
            if not n:
                continue
        elif k == "mag":
            op = {"k": "mag", "mags": [mag(rng, -5, 30) for _ in range(rng.randint(1, 3))]}
        else:
            op = {"k": k}
        out = world.step(op)
        if k == "over":
            op["pick"] = out.pop("picks", []) if op["random"] else []
        ops.append(op)
        outs.append(out)
        if k == "over" and out["r"] == "table":
            # the rows of the oversampled table tie in brightness: no second darkest row
            cfg = dict(cfg, kind="opsim-over")
            cfg["kind"] = "none"
            SETTABLE.setdefault("none", ())
    return ops, outs


def random_histories(ctx, count, length):
    scripts, real = [], []
    for k in range(count):
        cfg = config(ctx.rng)
        style = ctx.rng.randrange(420)
        world = World(cfg, style)
        obs0 = world.obs()
        ops, outs = operations(ctx.rng, cfg, world, length)
        scripts.append({"cfg": cfg, "ops": ops})
        real.append((style, obs0, outs))
    for sc, (style, obs0, outs), log in zip(scripts, real, ctx.oracle("Noise", scripts, CONST)):
        if log is not None:
            replay(ctx, sc["cfg"], sc["ops"], log, style, obs0, outs)
        if ctx.too_many():
            return
