"""Binds specs/PostProcess.tla to the post-processing of results (property P17)."""

import math

import numpy as np
import pandas as pd
from lightcurvelynx.utils.post_process_results import (
    augment_single_lightcurve,
    lightcurve_compute_mag,
    lightcurve_compute_snr,
    results_augment_lightcurves,
    results_drop_empty,
)
from nested_pandas import NestedFrame

from vlib.core import aslist

DAY = 60000.0


def flux(f):
    f = aslist(f)
    return f[0] * 2.0 ** f[1] * 10.0 ** f[2] if f else float("nan")


def gone(x):
    return x is None or x is pd.NA or x is np.ma.masked or (isinstance(x, float) and math.isnan(x))


class World:
    def __init__(self, cfg, style):
        self.style = style
        objs, n = cfg["objs"], len(cfg["objs"])
        data = {"id": [o["id"] for o in objs]}
        if cfg["col"]:
            t0 = [DAY + o["t0"][0] if o["t0"] else None for o in objs]
            data["t0"] = t0 if style % 3 else pd.array(t0, dtype="Float64") if None in t0 else [int(t) for t in t0]
        index = np.arange(n)
        frame = NestedFrame(data, index=index)
        rows = [(i, r) for i, o in enumerate(objs) for r in aslist(o["rows"])]
        err = [float(r["e"][0]) if r["e"] else float("nan") for _, r in rows]
        fl = [flux(r["f"]) for _, r in rows]
        if style % 5 == 1 and not any(gone(x) for x in err + fl):
            fl, err = [int(x) for x in fl], [int(x) for x in err]
        nested = pd.DataFrame({"mjd": [DAY + r["m"] for _, r in rows], "filter": ["gri"[k % 3] for k in range(len(rows))], "flux": fl, "fluxerr": err,
                               "n": np.arange(len(rows))}, index=[i for i, _ in rows])
        frame = frame.add_nested(nested, "lightcurve")
        frame.index = [index, index[::-1] * 3 + 1, [7] * n, ["o%d" % i for i in index]][style % 4]
        self.fs = [frame]
        self.numbers = {}
        for k, (_, r) in enumerate(rows):
            self.numbers[k] = r

    def step(self, op):
        self.style += 1
        try:
            return getattr(self, "do_" + op["k"])(op)
        except (ValueError, KeyError, IndexError, TypeError) as e:
            return {"r": type(e).__name__, "text": str(e)[:200]}

    def frame(self, op):
        return self.fs[op["on"] - 1]

    def min_snr(self, op):
        a, b = op["min"]
        return a if b == 1 and self.style % 2 else a / b

    def do_augment(self, op):
        if op["min"] == [0, 1] and self.style % 3 == 0:
            results_augment_lightcurves(self.frame(op))
        else:
            results_augment_lightcurves(self.frame(op), min_snr=self.min_snr(op))
        return {"r": "ok"}

    def do_single(self, op):
        lc = self.frame(op)["lightcurve"].iloc[op["obj"] - 1]
        lc = pd.DataFrame({c: np.array([np.nan if gone(x) else x for x in lc[c]]) for c in ("mjd", "flux", "fluxerr")},
                          index=np.arange(len(lc)) if self.style % 2 else [3] * len(lc))
        keep = lc.copy()
        t0 = aslist(op["t0"])
        augment_single_lightcurve(lc, min_snr=self.min_snr(op), t0=DAY + t0[0] if t0 else None)
        if not keep.equals(lc[["mjd", "flux", "fluxerr"]]):
            return {"r": "the light curve is changed"}
        snr, (mag, magerr) = lightcurve_compute_snr(keep["flux"].tolist(), keep["fluxerr"].tolist()), lightcurve_compute_mag(keep["flux"].to_numpy(), keep["fluxerr"].to_numpy())
        rows = []
        for k in range(len(lc)):
            r = lc.iloc[k]
            for a, b in ((r["snr"], snr[k]), (r["mag"], mag[k]), (r["magerr"], magerr[k])):
                if gone(a) != gone(b) or (not gone(a) and a != b):
                    return {"r": f"{a} in the table, but {b}"}
            rows.append({c: r[c] for c in ("snr", "mag", "magerr")} | {"det": bool(r["detection"]), "rel": r.get("time_rel")})
        return {"r": "single", "rows": rows}

    def do_drop(self, op):
        self.fs.append(results_drop_empty(self.frame(op)))
        return {"r": "ok"}

    def do_pick(self, op):
        rows = [r - 1 for r in op["rows"]]
        frame = self.frame(op)
        if rows == sorted(set(rows)) and self.style % 2:
            self.fs.append(frame[np.isin(np.arange(len(frame)), rows)])
        else:
            self.fs.append(frame.iloc[rows])
        if self.style % 5 == 0:
            self.fs[-1] = self.fs[-1].reset_index(drop=True)
        return {"r": "ok"}

    def do_cut(self, op):
        self.fs.append(self.frame(op).query(f"lightcurve.flux > {op['flux']}"))
        return {"r": "ok"}

    def do_t0(self, op):
        frame, t0 = self.frame(op), aslist(op["t0"])
        vals = [None if gone(x) else float(x) for x in frame["t0"]]
        vals[op["obj"] - 1] = DAY + t0[0] if t0 else None
        frame["t0"] = vals
        return {"r": "ok"}

    def obs(self):
        out = []
        for f in self.fs:
            fields = list(f["lightcurve"].nest.fields)
            objs = []
            for i in range(len(f)):
                lc = f["lightcurve"].iloc[i]
                rows = []
                for k in range(0 if gone(lc) else len(lc)):
                    r = lc.iloc[k]
                    rows.append({"m": float(r["mjd"]) - DAY, "f": r["flux"], "e": r["fluxerr"], "filter": r["filter"] == "gri"[int(r["n"]) % 3],
                                 "x": {c: r.get(c) for c in ("snr", "mag", "magerr")} | {"det": bool(r.get("detection", False)), "rel": r.get("time_rel")}})
                t0 = f["t0"].iloc[i] if "t0" in f.columns else None
                objs.append({"id": int(f["id"].iloc[i]), "t0": None if gone(t0) else float(t0) - DAY, "rows": rows})
            out.append({"objs": objs, "aug": "snr" in fields, "rel": "time_rel" in fields, "col": "t0" in f.columns,
                        "fields": sorted(fields), "columns": sorted(f.columns)})
        return out


def same(a, b, tol=1e-12):
    """b (a value of the code) is the value a of the specification or, for None, missing."""
    return gone(b) if a is None else not gone(b) and abs(float(b) - a) <= tol * (1 + abs(a))


def check_x(w, g, where):
    fr = lambda v: v[0][0] / v[0][1] if aslist(v) else None  # noqa: E731
    mag = aslist(w["mag"])
    mag = mag[0][0] / 10 - 2.5 * mag[0][1] * math.log10(2) if mag else None
    err = fr(w["magerr"])
    rel = aslist(w["rel"])
    for name, a in (("snr", fr(w["snr"])), ("mag", mag), ("magerr", err and err * 2.5 / math.log(10)), ("rel", float(rel[0]) if rel else None)):
        if not same(a, g[name]):
            return f"{name} of {where} is {g[name]}, not {a}"
    if w["det"] != g["det"]:
        return f"detection of {where} is {g['det']}, not {w['det']}"
    return None


def compare(want, got):
    if len(want) != len(got):
        return "number of frames"
    for j, (w, g) in enumerate(zip(want, got)):
        if [o["id"] for o in aslist(w["objs"])] != [o["id"] for o in g["objs"]]:
            return f"frame {j} has the objects {[o['id'] for o in g['objs']]}, not {[o['id'] for o in aslist(w['objs'])]}"
        if (w["aug"], w["rel"], w["col"]) != (g["aug"], g["rel"], g["col"]):
            return f"frame {j} has the columns {g['fields']}"
        if set(g["fields"]) - {"snr", "detection", "mag", "magerr", "time_rel"} != {"mjd", "filter", "flux", "fluxerr", "n"} or set(g["columns"]) - {"t0"} != {"id", "lightcurve"}:
            return f"frame {j} has the columns {g['columns']} and {g['fields']}"
        for a, b in zip(aslist(w["objs"]), g["objs"]):
            where = f"object {a['id']} of frame {j}"
            t0 = aslist(a["t0"]) if w["col"] else []
            if not same(float(t0[0]) if t0 else None, b["t0"]):
                return f"t0 of {where} is {b['t0']}, not {t0}"
            if len(aslist(a["rows"])) != len(b["rows"]):
                return f"{len(b['rows'])} observations of {where}, not {len(aslist(a['rows']))}"
            for k, (x, y) in enumerate(zip(aslist(a["rows"]), b["rows"])):
                spot = f"observation {k} of {where}"
                f = flux(x["f"])
                e = aslist(x["e"])
                if x["m"] != y["m"] or not same(None if gone(f) else f, y["f"]) or not same(float(e[0]) if e else None, y["e"]) or not y["filter"]:
                    return f"{spot} is changed: {y}, not {x}"
                bad = check_x(x["x"], y["x"], spot)
                if bad:
                    return bad
    return None


def replay(ctx, script, log, style):
    world = World(script["cfg"], style)
    case = {"style": style, **script}
    for k, op in enumerate([None] + script["ops"]):
        got = world.step(op) if op else {"r": "init"}
        bad = None
        if op:
            ctx.steps += 1
            want = log[k]["out"]
            if want["r"] != got["r"]:
                bad = f"{op['k']} gives {got['r']} {got.get('text', '')}"
            elif want["r"] == "single":
                rows = aslist(want["rows"])
                bad = next((b for b in (check_x(w, g, f"observation {i}") for i, (w, g) in enumerate(zip(rows, got["rows"]))) if b), None)
        bad = bad or compare(aslist(log[k]["obs"]), world.obs())
        if bad:
            ctx.violation(f"{op['k'] if op else 'start'}: {bad}", case)
            return
    ctx.traces += 1
    ctx.sample(script)


def tidy(c):
    c = dict(c, objs=[dict(o, t0=aslist(o["t0"]), rows=[dict(r, f=aslist(r["f"]), e=aslist(r["e"])) for r in aslist(o["rows"])]) for o in aslist(c["objs"])])
    return c


def exhaustive(ctx, depth):
    for n, log in enumerate(ctx.explore("PostProcess", depth)):
        log = aslist(log)
        replay(ctx, {"cfg": tidy(log[0]["cfg"]), "ops": [e["op"] for e in log[1:]]}, log, n % 60)
        if ctx.too_many():
            return


# ---------------------------------------------------------------- random frames
def scenario(rng, steps):
    n = rng.choice([1, 1, 2, 3, 5])
    lack, none = rng.random() < 0.3, rng.random() < 0.3

    def row():
        f = [rng.choice([1, 1, 1, 1, -1]), rng.randint(0, 3), rng.randint(0, 4)] if rng.random() < 0.9 else [0, 0, 0]
        e = [rng.choice([1, 2, 3, 5, 10, 40])] if rng.random() < 0.85 else [rng.choice([0, -1])]
        return {"m": rng.randint(-50, 50), "f": [] if lack and rng.random() < 0.2 else f, "e": [] if lack and rng.random() < 0.2 else e}

    objs = [{"id": i, "t0": [] if none and rng.random() < 0.4 else [rng.randint(-20, 20)],
             "rows": [row() for _ in range(rng.choice([0, 0, 1, 2, 5]))]} for i in range(n)]
    cfg = {"objs": objs, "col": rng.random() < 0.85}
    sizes, empty = [[len(o["rows"]) for o in objs]], []
    ops = []
    for _ in range(rng.randint(1, steps)):
        k = rng.choice(["augment", "augment", "drop", "pick", "cut", "t0", "single"])
        on = rng.randint(1, len(sizes))
        size = sizes[on - 1]
        snr = rng.choice([[0, 1], [2, 1], [5, 1], [1, 2], [10, 1], [1, 3], [-1, 1], [200, 3]])
        if k == "augment":
            ops.append({"k": k, "on": on, "min": snr})
        elif k == "drop" and size is not None:
            ops.append({"k": k, "on": on})
            sizes.append([x for x in size if x])
        elif k == "pick" and size:
            rows = rng.sample(range(1, len(size) + 1), rng.randint(1, len(size)))
            if rng.random() < 0.3:
                rows.sort()
            ops.append({"k": k, "on": on, "rows": rows})
            sizes.append([size[r - 1] for r in rows])
        elif k == "cut" and size is not None and sum(size):
            # the sizes that remain are not tracked any more
            c = rng.choice([0, 1, 5, 50])
            ops.append({"k": k, "on": on, "flux": c})
            sizes.append(None)
        elif k == "t0" and size and cfg["col"]:
            ops.append({"k": k, "on": on, "obj": rng.randint(1, len(size)), "t0": [rng.randint(-9, 9)] if rng.random() < 0.8 else []})
        elif k == "single" and size and sum(size):
            obj = rng.choice([i + 1 for i, x in enumerate(size) if x])
            ops.append({"k": k, "on": on, "obj": obj, "min": snr, "t0": [rng.randint(-9, 9)] if rng.random() < 0.7 else []})
    return {"cfg": cfg, "ops": ops}


def random_histories(ctx, count, steps):
    scripts = [scenario(ctx.rng, steps) for _ in range(count)]
    for n, (script, log) in enumerate(zip(scripts, ctx.oracle("PostProcess", scripts, chunk=400))):
        if log is not None:
            replay(ctx, script, aslist(log), n)
        if ctx.too_many():
            return
