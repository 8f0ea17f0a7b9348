"""Binds specs/Survey.tla to ObsTable (properties P07 and P08)."""

import math
import os
import shutil
import tempfile

import numpy as np
import pandas as pd
from astropy import units as u
from astropy.coordinates import SkyCoord
from astropy.wcs import WCS
from lightcurvelynx.astro_utils.detector_footprint import DetectorFootprint
from lightcurvelynx.obstable.obs_table import ObsTable
from regions import PixCoord, PolygonPixelRegion, PolygonSkyRegion, RectanglePixelRegion, RectangleSkyRegion

from vlib.core import aslist

CONST = {"MCRows": {2, 3}}
FILTERS = ["", "g", "r", "i", "z"]
ALIASES = {"time": "mjd_obs", "a": "visit_a", "filter": "band"}


def radec(v, style=0):
    """Right ascension and declination (degrees) of an integer direction."""
    ra = math.degrees(math.atan2(v[1], v[0]))
    dec = math.degrees(math.atan2(v[2], math.hypot(v[0], v[1])))
    if ra < 0 and style % 3 != 0:
        ra += 360.0
    return ra, dec


def pointing(p, style=0):
    """The pointing of a row; at the poles the right ascension follows from the local east."""
    if p["c"][0] == 0 and p["c"][1] == 0:
        ra = math.degrees(math.atan2(-p["e"][0], p["e"][1]))
        return (ra + 360.0 if ra < 0 and style % 3 else ra), 90.0 if p["c"][2] > 0 else -90.0
    return radec(p["c"], style)


def degrees(r):
    c = math.sqrt(r[0] / r[1])
    return math.degrees(math.acos(-c if r[2] else c))


def projected(box, style):
    """The footprint [x0, x1] x [y0, y1] of the tangent plane, in a projection of its own or as a region on the sky."""
    x0, x1, y0, y1 = box
    scale = [1e-6, 1e-5, 3e-7][style % 3]
    turn, flip = math.radians([0.0, 90.0, 30.0, 180.0, -50.0][style % 5]), [1, -1][style % 2]
    wcs = WCS(naxis=2)
    wcs.wcs.ctype = ["RA---TAN", "DEC--TAN"]
    wcs.wcs.crval = [0.0, 0.0]
    wcs.wcs.crpix = [1.0, 1.0]
    wcs.wcs.cdelt = [flip * scale, scale]
    wcs.wcs.pc = [[math.cos(turn), -math.sin(turn)], [math.sin(turn), math.cos(turn)]]
    xs, ys = np.array([x0, x1, x1, x0]), np.array([y0, y0, y1, y1])
    lon = np.arctan(xs)
    sky = SkyCoord(np.degrees(lon), np.degrees(np.arctan(ys * np.cos(lon))), unit="deg")
    kind = style % 3
    if kind == 0:       # pixels of the given projection
        px, py = wcs.world_to_pixel(sky)
        return DetectorFootprint(PolygonPixelRegion(vertices=PixCoord(px, py)), wcs=wcs)
    kw = {"wcs": wcs} if style % 4 else {"pixel_scale": scale}
    if kind == 1 and x0 == -x1 and y0 == -y1 and "wcs" in kw:
        center = SkyCoord(0.0, 0.0, unit="deg")
        return DetectorFootprint(RectangleSkyRegion(center, np.degrees(2 * x1) * u.deg, np.degrees(2 * y1) * u.deg), **kw)
    return DetectorFootprint(PolygonSkyRegion(vertices=sky), **kw)


def footprint(fp, style):
    if not fp:
        return None
    unit = 1e-8  # tangent plane units per pixel
    scale = math.degrees(unit)
    x0, x1, y0, y1 = (v / fp[4] / unit for v in fp[:4])
    if style % 4 == 0:
        return projected([v / fp[4] for v in fp[:4]], style // 4)
    if x0 == -x1 and y0 == -y1 and style % 2:
        return DetectorFootprint.from_rect(math.degrees(2 * x1 * unit), math.degrees(2 * y1 * unit), pixel_scale=scale)
    if style % 3:
        region = RectanglePixelRegion(PixCoord((x0 + x1) / 2, (y0 + y1) / 2), x1 - x0, y1 - y0, angle=0 * u.deg)
    else:
        region = PolygonPixelRegion(vertices=PixCoord([x0, x1, x1, x0], [y0, y0, y1, y1]))
    return DetectorFootprint(region, pixel_scale=scale)


class World:
    def __init__(self, cfg, style):
        self.style = style
        self.rot = bool(cfg["fp"])
        pts = [pointing(p, style + k) for k, p in enumerate(aslist(cfg["pos"]))]
        data = {"ra": [p[0] for p in pts], "dec": [p[1] for p in pts]}
        alias = {std: other for other, std in aslist(cfg["alias"])}
        for c, vals in cfg["col"].items():
            data[alias.get(c, c)] = self.real(c, vals)
        if self.rot and style % 7 != 0:
            data["rotation"] = [math.degrees(math.atan2(r["s"], r["c"])) for r in aslist(cfg["rot"])]
        self.norot = self.rot and style % 7 == 0
        kw = {}
        if cfg["rad"]:
            kw["radius"] = degrees(cfg["rad"])
        data = {k: np.array(v) for k, v in data.items()}
        n = len(pts)
        labels = [np.arange(n) * 3 + 7, np.arange(n) // 2, np.arange(n) % 2, np.arange(n)[::-1], np.array([f"x{i % 3}" for i in range(n)])]
        kind = style % 5
        table = dict(data) if kind == 0 else pd.DataFrame(data) if kind == 1 else pd.DataFrame(data, index=labels[(style // 5) % 5])
        self.source = table
        self.fp = footprint(cfg["fp"], style)
        self.obj = ObsTable(table, colmap={std: other for std, other in alias.items()} or None, detector_footprint=self.fp, **kw)

    def real(self, name, vals):
        vals = aslist(vals)
        if name == "filter":
            return np.array([FILTERS[v] for v in vals], dtype=object if not vals else None)
        return np.array([float(v) if name == "time" else v for v in vals], dtype=None if vals else float)

    def back(self, vals, name=None):
        out = []
        for v in vals:
            if isinstance(v, str):
                out.append(FILTERS.index(v) if v in FILTERS else v)
            else:
                out.append(int(v) if float(v) == int(v) else float(v))
        return out

    def step(self, op):
        self.style += 1
        try:
            return getattr(self, "do_" + op["k"])(op)
        except (ValueError, KeyError, IndexError) as e:
            return {"r": type(e).__name__, "text": str(e)[:100]}

    def do_filter(self, op):
        v = aslist(op["v"])
        if op["t"] == "mask":
            rows = np.array([bool(x) for x in v], dtype=bool)
            rows = rows if self.style % 2 else [bool(x) for x in v] or rows
        else:
            rows = v if self.style % 2 else np.array(v, dtype=int)
        res = self.obj.filter_rows(rows)
        return {"r": "ok"} if res is self.obj else {"r": "filter_rows returns the table itself"}

    def do_add(self, op):
        vals = aslist(op["vals"])
        real = self.real(op["name"], vals)
        if op["scalar"]:
            real = real[0].item() if self.style % 2 else real[0]
        elif self.style % 2:
            real = list(real)
        self.obj.add_column(op["name"], real, overwrite=op["ow"])
        return {"r": "ok"}

    def do_move(self, op):
        pts = [pointing(p, self.style) for p in aslist(op["pos"])]
        self.obj.add_column("ra", np.array([p[0] for p in pts]), overwrite=True)
        self.obj.add_column("dec", np.array([p[1] for p in pts]), overwrite=True)
        return {"r": "ok"}

    def do_get(self, op):
        has = op["name"] in self.obj
        try:
            return {"r": "vals", "has": has, "vals": self.back(self.obj[op["name"]])}
        except KeyError:
            return {"r": "KeyError", "has": has}

    def do_info(self, op):
        o = self.obj
        lo, hi = o.time_bounds()
        rad = o.radius
        return {"r": "info", "n": len(o), "cols": sorted(set(o.columns) - {"ra", "dec", "rotation"}),
                "filters": [FILTERS.index(f) for f in o.filters], "times": self.back([lo, hi]) if len(o) else [],
                "rad": rad}

    def query(self, op):
        pts = [radec(v, self.style) for v in aslist(op["q"])]
        if op.get("scalar") or (len(pts) == 1 and self.style % 2):
            ra, dec = pts[0]
            if self.style % 3 == 0:
                ra, dec = np.float64(ra), np.float64(dec)
        else:
            ra, dec = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
            if self.style % 5 == 0:
                ra, dec = list(ra), list(dec)
        kw = {}
        if aslist(op["rad"]):
            kw["radius"] = degrees(op["rad"])
        for name, b in (("t_min", aslist(op["lo"])), ("t_max", aslist(op["hi"]))):
            if len(b) == 1:
                kw[name] = [b[0], float(b[0]), np.array([b[0]], dtype=float)][self.style % 3]
            elif b:
                kw[name] = np.array(b, dtype=float) if self.style % 2 else list(b)
        return ra, dec, kw

    def do_search(self, op):
        ra, dec, kw = self.query(op)
        inds = self.obj.range_search(ra, dec, **kw)
        if np.isscalar(ra):
            inds = [inds]
        return {"r": "rows", "inds": [[int(i) for i in x] for x in inds]}

    def do_seen(self, op):
        ra, dec, kw = self.query(op)
        seen = self.obj.is_observed(ra, dec, **kw)
        if np.isscalar(ra):
            seen = [seen]
        return {"r": "rows", "seen": [bool(x) for x in seen]}

    def do_obs(self, op):
        ra, dec, kw = self.query(dict(op, scalar=True))
        cols = aslist(op["cols"])
        res = self.obj.get_observations(ra, dec, cols=cols[0] if len(cols) == 1 and self.style % 2 else cols, **kw)
        if list(res) != cols:
            return {"r": f"columns {list(res)}"}
        vals = [self.back(res[c]) for c in cols]
        if len({len(v) for v in vals}) != 1:
            return {"r": "columns of different lengths"}
        return {"r": "table", "rows": [list(t) for t in zip(*vals)]}

    def do_moc(self, op):
        kw = {"radius": degrees(op["rad"])} if aslist(op["rad"]) else {}
        size = kw.get("radius") or self.obj.radius or 1.0
        if size > 3 or self.style % 2:
            kw["max_depth"] = 8 if size < 15 else 6
        moc = self.obj.build_moc(**kw)
        pts = [radec(v, self.style) for v in aslist(op["q"])]
        return {"r": "cover", "v": moc.contains_skycoords(SkyCoord([p[0] for p in pts], [p[1] for p in pts], unit="deg")).tolist()}

    def do_detect(self, op):
        if self.fp is None:
            return {"r": "none"}
        fp = self.fp
        pts, rows = [radec(v, self.style) for v in aslist(op["q"])], [pointing(p, self.style) for p in aslist(op["p"])]
        rot = [math.degrees(math.atan2(r["s"], r["c"])) for r in aslist(op["rot"])]
        args = [[p[0] for p in pts], [p[1] for p in pts], [p[0] for p in rows], [p[1] for p in rows]]
        if len(pts) == 1 and self.style % 2:
            args = [x[0] if len(x) == 1 else x for x in args]
        elif self.style % 3:
            args = [x[0] if len(x) == 1 and k > 1 else np.array(x) for k, x in enumerate(args)]
        kw = {"rotation": rot[0] if len(rot) == 1 and self.style % 3 else np.array(rot)}
        if not any(rot) and self.style % 2 and len(rot) <= len(pts):
            kw = {} if self.style % 3 else {"rotation": None}
        got = fp.contains(*args, **kw)
        full = [np.full(len(pts), x) if np.size(x) == 1 else np.array(x, dtype=float) for x in args]
        turn = kw.get("rotation")
        turn = None if turn is None else np.full(len(pts), turn) if np.size(turn) == 1 else turn
        lon, lat = DetectorFootprint.rotate_to_center(*full, rotation=turn)
        off = [[float(a), float(b)] for a, b in zip(np.atleast_1d(lon), np.atleast_1d(lat))]
        return {"r": "inside", "off": off, "v": [bool(x) for x in np.atleast_1d(got)], "scalar": np.ndim(got) == 0, "one": np.isscalar(args[0])}

    def do_make(self, op):
        fp, style = aslist(op["fp"]), self.style
        x0, x1, y0, y1 = (1e5 * v for v in fp[:4])
        region = RectanglePixelRegion(PixCoord((x0 + x1) / 2, (y0 + y1) / 2), x1 - x0, y1 - y0)
        kw = {"pixel_scale": op["scale"] * 1e-6} if op["scale"] or style % 2 else {}
        if op["wcs"]:
            wcs = WCS(naxis=2)
            wcs.wcs.ctype = ["RA---TAN", "DEC--TAN"]
            wcs.wcs.cdelt = [1e-6, 1e-6]
            kw["wcs"] = wcs
        DetectorFootprint(region, **kw)
        return {"r": "ok"}

    def do_radius(self, op):
        self.obj.radius = degrees(op["rad"])
        return {"r": "ok"}

    def do_clear(self, op):
        self.obj.clear_detector_footprint()
        self.fp = None
        return {"r": "ok"}

    def do_trip(self, op):
        tmp = tempfile.mkdtemp(prefix="vsurvey")
        try:
            path = os.path.join(tmp, "t." + op["how"])
            if op["how"] == "db":
                self.obj.write_db(path, overwrite=self.style % 2 == 0)
                if self.style % 3 == 0:
                    self.obj.write_db(path, overwrite=True)
                self.obj = ObsTable.from_db(path)
            else:
                self.obj.write_parquet(path, overwrite=self.style % 2 == 0)
                if self.style % 3 == 0:
                    try:
                        self.obj.write_parquet(path)
                        return {"r": "an existing file is overwritten"}
                    except FileExistsError:
                        pass
                self.obj = ObsTable.from_parquet(path)
        finally:
            shutil.rmtree(tmp)
        return {"r": "ok"}

    def do_mutate(self, op):
        src = self.source
        for c in list(src):
            if c in ("ra", "dec", "id"):
                if isinstance(src, dict):
                    src[c][:] = 1
                else:
                    src[c] = 1
        return {"r": "ok"}


def agree(op, want, got):
    if want["r"] != got["r"]:
        return f"specified {want['r']}, got {got['r']} {got.get('text', '')}"
    r = want["r"]
    if r == "rows" and "inds" in got:
        must, may = [aslist(x) for x in aslist(want["must"])], [aslist(x) for x in aslist(want["may"])]
        if len(got["inds"]) != len(must):
            return f"{len(got['inds'])} answers for {len(must)} queries"
        for k, inds in enumerate(got["inds"]):
            if len(set(inds)) != len(inds):
                return f"query {k}: a row is returned twice"
            if not set(must[k]) <= set(inds) <= set(must[k]) | set(may[k]):
                return f"query {k}: specified rows {must[k]} (edge {may[k]}), got {sorted(inds)}"
    elif r == "rows":
        must, may = [aslist(x) for x in aslist(want["must"])], [aslist(x) for x in aslist(want["may"])]
        if len(got["seen"]) != len(must):
            return f"{len(got['seen'])} answers for {len(must)} queries"
        for k, seen in enumerate(got["seen"]):
            if seen != bool(must[k]) and not may[k]:
                return f"query {k}: is_observed {seen} but specified rows {must[k]}"
    elif r == "table":
        must, may = sorted(map(aslist, aslist(want["must"]))), sorted(map(aslist, aslist(want["may"])))
        rest = list(got["rows"])
        for row in must:
            if row not in rest:
                return f"specified rows {must}, got {got['rows']}"
            rest.remove(row)
        for row in rest:
            if row not in may:
                return f"specified rows {must}, got {got['rows']}"
            may.remove(row)
    elif r == "cover":
        for k, (must, may, v) in enumerate(zip(aslist(want["must"]), aslist(want["may"]), got["v"])):
            if (must and not v) or (v and not may):
                return f"query {k} is {'' if v else 'not '}covered"
    elif r == "inside":
        if got["scalar"] != got["one"]:
            return f"the answer is {'a value' if got['scalar'] else 'an array'} for {'a value' if got['one'] else 'an array'}"
        for k, (x, v) in enumerate(zip(aslist(want["v"]), got["v"])):
            if x and v != (x == 1):
                return f"point {k} is {'inside' if v else 'outside'}"
        for k, (x, (lon, lat)) in enumerate(zip(aslist(want["off"]), got["off"])):
            level = math.hypot(x[0], x[1])
            bad = abs(lat - math.degrees(math.atan2(x[2], level))) > 1e-6 or not -180.0 - 1e-9 <= lon <= 180.0 + 1e-9
            if level > 1e-3 * abs(x[2]):
                bad = bad or abs((lon - math.degrees(math.atan2(x[1], x[0])) + 180.0) % 360.0 - 180.0) > 1e-5
            if bad:
                return f"offset of point {k}: {lon}, {lat} instead of those of {x}"
    elif r == "vals":
        if got["vals"] != aslist(want["vals"]) or got["has"] is not True:
            return f"specified {want}, got {got}"
    elif r == "KeyError" and op["k"] == "get":
        if got.get("has"):
            return "an absent column is reported as present"
    elif r == "info":
        w = dict(want, cols=sorted(aslist(want["cols"])), filters=sorted(aslist(want["filters"])), times=aslist(want["times"]))
        rad = aslist(w.pop("rad"))
        g = dict(got)
        grad = g.pop("rad")
        g["filters"] = sorted(g["filters"])
        if w != g:
            return f"specified {w}, got {g}"
        if (grad is None) != (not rad) or (rad and abs(grad - degrees(rad)) > 1e-9):
            return f"radius {grad}, specified {rad}"
    return None


def replay(ctx, cfg, ops, outs, style):
    if cfg["fp"] and style % 7 == 0:
        style += 1 if any(r["s"] or r["c"] < 0 for r in aslist(cfg["rot"])) else 0
    w = World(cfg, style)
    for i, (op, out) in enumerate(zip(ops, outs)):
        ctx.steps += 1
        got = w.step(op)
        why = agree(op, out, got)
        if why:
            ctx.violation(f"{op['k']}: {why}", {"cfg": cfg, "ops": ops[:i + 1], "style": style})
            return
    # At the end of every history the whole content agrees.


def replay_mc(ctx, logs):
    for n, log in enumerate(logs):
        replay(ctx, log[0]["cfg"], [x["op"] for x in log[1:]], [x["out"] for x in log[1:]], n)
        ctx.traces += 1
        if ctx.too_many():
            return
    if logs:
        ctx.sample([x["op"] for x in logs[len(logs) // 2][1:]])


# Pointings whose direction and local east have integer norms.
BASE = [([3, 4, 12], [-4, 3, 0], 13, 5), ([3, 4, 0], [-4, 3, 0], 5, 5), ([4, 0, 3], [0, 1, 0], 5, 1), ([1, 0, 0], [0, 1, 0], 1, 1),
        ([12, 9, 8], [-3, 4, 0], 17, 5), ([12, 9, 20], [-3, 4, 0], 25, 5), ([5, 12, 0], [-12, 5, 0], 13, 13), ([0, 3, 4], [-1, 0, 0], 5, 1)]
POLES = [([0, 0, 1], [0, 1, 0], 1, 1), ([0, 0, -1], [0, 1, 0], 1, 1), ([0, 0, 1], [-1, 0, 0], 1, 1), ([0, 0, 1], [-4, 3, 0], 1, 5), ([0, 0, -1], [-3, 4, 0], 1, 5)]
RADII = [[1, 1, False], [999, 1000, False], [99, 100, False], [9, 10, False], [3, 4, False], [1, 2, False], [1, 10, False], [1, 4, True], [9, 10, True]]
ROTS = [(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-5, 0), (4, -3), (0, -5), (-4, -3)]


class Gen:
    def __init__(self, rng, edits):
        self.rng, self.edits = rng, edits

    def point(self):
        r = self.rng
        c, e, lc, le = r.choice(BASE) if r.random() < 0.8 else r.choice(POLES)
        if c[0] or c[1]:
            sx, sy, sz = r.choice([1, 1, -1]), r.choice([1, 1, -1]), r.choice([1, -1])
            c = [c[0] * sx, c[1] * sy, c[2] * sz]
            # east is (-cy, cx, 0) up to a positive factor
            e = [e[0] * sy, e[1] * sx, 0]
        return {"c": list(c), "e": list(e), "lc": lc, "le": le}

    def near(self, p):
        """A query close to (or at) a pointing."""
        r = self.rng
        m = max(1, 20 // max(abs(x) for x in p["c"]))
        v = [x * m for x in p["c"]]
        if r.random() < 0.25:
            return v
        k = r.choice([1, 1, 2, 4])
        v = [max(-20, min(20, x + r.randrange(-k, k + 1))) for x in v]
        return v if any(v) else [1, 0, 0]

    def config(self):
        r = self.rng
        n = r.choice([1, 2, 4, 8, 12]) if r.random() < 0.93 else r.choice([25, 40])
        centers = [self.point() for _ in range(r.choice([1, 2, 4]))]
        pos = [r.choice(centers) if r.random() < 0.7 else self.point() for _ in range(n)]
        col = {"time": [r.randrange(0, 12) for _ in range(n)], "filter": [r.randrange(1, 5) for _ in range(n)], "id": [100 + i for i in range(n)],
               "a": [r.randrange(0, 50) for _ in range(n)]}
        alias = [[ALIASES[c], c] for c in ALIASES if r.random() < 0.4]
        fp = []
        if r.random() < 0.5:
            b = r.choice([20, 40, 100])
            fp = [-r.randrange(1, 8), r.randrange(1, 8), -r.randrange(1, 8), r.randrange(1, 8), b]
            if r.random() < 0.4:
                fp[0], fp[2] = -fp[1], -fp[3]
        norot = r.random() < 0.3
        rot = [dict(zip("cs", (5, 0) if norot else r.choice(ROTS))) for _ in range(n)]
        rad = [] if r.random() < 0.15 else r.choice(RADII[1:6])
        return {"n": n, "pos": pos, "rot": rot, "col": col, "alias": alias, "rad": rad, "fp": fp}

    def history(self, length):
        r = self.rng
        cfg = self.config()
        n, ops, pts = cfg["n"], [], list(cfg["pos"])
        cols = set(cfg["col"])
        names = ["time", "filter", "id", "a", "b", "c", "mjd_obs", "visit_a", "band", "nope", "Time"]
        while len(ops) < length:
            x = r.random()
            if x < self.edits:
                y = r.random()
                if y < 0.35:
                    if r.random() < 0.5:
                        m = n if r.random() < 0.85 else max(1, n + r.choice([-1, 1, 3]))
                        v = [int(r.random() < 0.75) for _ in range(m)]
                        ops.append({"k": "filter", "t": "mask", "v": v})
                        if m == n:
                            keep = [i for i in range(n) if v[i]]
                        else:
                            continue
                    else:
                        v = [r.randrange(0, n) for _ in range(r.randrange(0, n + 3))] if n else []
                        if r.random() < 0.15:
                            v.append(n + r.randrange(0, 3))
                        ops.append({"k": "filter", "t": "idx", "v": v})
                        if any(i >= n for i in v):
                            continue
                        keep = sorted(set(v))
                    pts = [pts[i] for i in keep]
                    n = len(keep)
                elif y < 0.6:
                    scalar = r.random() < 0.25
                    name = r.choice(["a", "b", "c", "time", "filter", "id"])
                    m = n if r.random() < 0.85 else n + 1
                    if m == 1 and n == 0:
                        m = 0
                    top = 5 if name == "filter" else 30
                    vals = [r.randrange(1, top) for _ in range(1 if scalar else m)]
                    ops.append({"k": "add", "name": name, "vals": vals, "scalar": scalar, "ow": r.random() < 0.6})
                elif y < 0.7:
                    new = [self.point() for _ in range(n)]
                    ops.append({"k": "move", "pos": new})
                    pts = new
                elif y < 0.78:
                    ops.append({"k": "radius", "rad": r.choice(RADII[1:])})
                elif y < 0.84:
                    ops.append({"k": "clear"})
                elif y < 0.9:
                    ops.append({"k": "mutate"})
                elif n and not cfg["fp"]:
                    ops.append({"k": "trip", "how": r.choice(["db", "parquet"])})
            elif x < self.edits + 0.1:
                ops.append({"k": "info"})
            elif x < self.edits + 0.2:
                ops.append({"k": "get", "name": r.choice(names)})
            else:
                k = r.choice(["search", "search", "search", "seen", "seen", "obs", "obs", "moc" if n else "seen", "detect" if cfg["fp"] else "obs", "make" if r.random() < 0.2 else "search"])
                if k == "make":
                    box = [r.choice([-3, -1, -1, 1]), r.choice([-1, 2, 2, 3]), r.choice([-2, -1, -1, 1]), r.choice([-1, 1, 1, 4])]
                    box = [min(box[:2]), max(box[:2]) + (box[0] == box[1]), min(box[2:]), max(box[2:]) + (box[2] == box[3])]
                    if box[1] == 0 or box[3] == 0:
                        continue
                    ops.append({"k": k, "fp": box, "scale": r.choice([-1, 0, 1, 2]), "wcs": r.random() < 0.4})
                    continue
                if k in ("moc", "detect"):
                    pool = pts or [self.point()]
                    m = r.choice([1, 2, 4])
                    ps = [r.choice(pool) for _ in range(r.choice([1, m]))]
                    q = [self.near(ps[i % len(ps)]) for i in range(m)]
                    if k == "moc":
                        ops.append({"k": k, "q": q, "rad": [] if r.random() < 0.5 else r.choice(RADII[1:7])})
                    else:
                        rots = [dict(zip("cs", r.choice(ROTS + [(5, 0)] * 6))) for _ in range(r.choice([1, len(q)]))]
                        ops.append({"k": k, "q": q, "p": ps, "rot": rots if r.random() < 0.92 else rots + [dict(c=5, s=0)] * (len(q) + 1)})
                    continue
                m = 1 if k == "obs" else r.choice([1, 1, 2, 3, 5])
                pool = pts or [self.point()]
                q = [self.near(r.choice(pool)) if r.random() < 0.8 else [r.randrange(-9, 10), r.randrange(-9, 10), r.randrange(1, 10)] for _ in range(m)]
                op = {"k": k, "q": q, "rad": [] if r.random() < 0.6 else r.choice(RADII)}
                for b in ("lo", "hi"):
                    y = r.random()
                    base = r.randrange(0, 8) if b == "lo" else r.randrange(4, 12)
                    if y < 0.5:
                        op[b] = []
                    elif y < 0.75 or k == "obs":
                        op[b] = [base]
                    else:
                        mm = m if r.random() < 0.85 else m + 1
                        op[b] = [r.randrange(0, 12) for _ in range(mm)]
                if k == "obs":
                    op["cols"] = r.sample(names, 2) if r.random() < 0.3 else ["id"] + r.sample(["time", "filter", "a"], r.choice([0, 1, 2]))
                ops.append(op)
        ops += [{"k": "info"}] + [{"k": "get", "name": c} for c in ("id", "time", "filter", "a", "b")]
        return {"cfg": cfg, "ops": ops}


def random_histories(ctx, count, length, edits):
    gen = Gen(ctx.rng, edits)
    scripts = [gen.history(length) for _ in range(count)]
    logs = ctx.oracle("Survey", scripts, CONST)
    for n, (script, log) in enumerate(zip(scripts, logs)):
        replay(ctx, script["cfg"], script["ops"], [x["out"] for x in log[1:]], n)
        ctx.traces += 1
        if ctx.too_many():
            return
    ctx.sample({"script": scripts[0]["ops"][:5], "spec_outcome": logs[0][5]["out"]})
