"""P19: sampled sky positions (spec: Sky)."""

import os
import tempfile

import astropy.units as u
import numpy as np
import pandas as pd
from astropy.coordinates import SkyCoord
from cdshealpix.nested import lonlat_to_healpix
from lightcurvelynx.base_models import ParameterizedNode
from lightcurvelynx.math_nodes.ra_dec_sampler import (
    ApproximateMOCSampler,
    ObsTableRADECSampler,
    ObsTableUniformRADECSampler,
    UniformRADEC,
)
from lightcurvelynx.obstable.fake_obs_table import FakeObsTable
from lightcurvelynx.obstable.opsim import OpSim
from mocpy import MOC

CONST = {"MCLens": {1, 3}, "MCNums": {1, 2}}
EPS = 1e-7  # degrees


def vectors(ra, dec):
    ra, dec = np.radians(np.atleast_1d(ra)), np.radians(np.atleast_1d(dec))
    return np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)]).T


def distances(ra1, dec1, ra2, dec2):
    """Great-circle distances in degrees between all pairs (accurate for small and for large ones)."""
    v, w = vectors(ra1, dec1)[:, None, :], vectors(ra2, dec2)[None, :, :]
    half = np.sqrt(np.sum((v - w) ** 2, axis=2)) / 2
    other = np.sqrt(np.sum((v + w) ** 2, axis=2)) / 2
    return np.degrees(2 * np.arctan2(half, other))


class World:
    """One sampler with the survey table or the map that it was given."""

    def __init__(self, cfg, extra, tmp):
        self.cfg, self.x = cfg, extra
        self.count = extra["style"]
        kind = cfg["kind"]
        self.outputs = ["ra", "dec"]
        seed = extra["seed"]
        if kind == "sphere":
            self.node = UniformRADEC(seed=seed, use_degrees=extra["degrees"])
            return
        if kind == "moc":
            self.node = self.moc_node(cfg, extra, seed, tmp)
            return
        self.rows = extra["rows"]  # (ra, dec, time) by row number - 1
        self.obs = self.table(extra)
        keep = [r - 1 for r in cfg["given"]]
        self.current = list(range(len(self.rows)))
        if len(keep) < len(self.rows):
            self.filter(keep, extra["style"] % 2)
        radius = None if extra["own_radius"] else extra["radius"]
        if kind == "rows":
            self.outputs = ["ra", "dec", "time"]
            self.node = ObsTableRADECSampler(self.obs, radius=radius, in_order=cfg["order"], seed=seed)
        else:
            self.node = ObsTableUniformRADECSampler(self.obs, radius=radius, seed=seed)

    def table(self, x):
        a = np.array([r[:2] for r in self.rows], dtype=int if x["ints"] else float)
        data = {"ra": a[:, 0], "dec": a[:, 1], "time": np.array([r[2] for r in self.rows]), "filter": np.array(["r"] * len(a))}
        if x["style"] % 2:
            data = {"fieldRA": data["ra"], "fieldDec": data["dec"], "observationStartMJD": data["time"], "filter": data["filter"],
                    "zp_nJy": np.ones(len(a))}
            if x["style"] % 4 == 3:
                data = pd.DataFrame(data)
            # The radius of the table differs from an explicitly given one.
            return OpSim(data, radius=x["radius"] if x["own_radius"] else x["radius"] * 0.5 + 0.1)
        data["zp"] = np.ones(len(a))
        if x["style"] % 4 == 2:
            data = pd.DataFrame(data)
        return FakeObsTable(data, radius=x["radius"] if x["own_radius"] else x["radius"] * 2 + 1.0, const_flux_error=1.0)

    def moc_node(self, cfg, x, seed, tmp):
        text = {}
        for k in cfg["cells"]:
            text.setdefault(str(k["o"]), []).append(k["p"])
        moc = MOC.from_json(text)
        if x["style"] % 3 == 0:
            return ApproximateMOCSampler(moc, depth=cfg["depth"], seed=seed)
        fmt = ["", "fits", "json"][x["style"] % 3]
        path = os.path.join(tmp, f"moc.{fmt}")
        moc.save(path, format=fmt, overwrite=True)
        return ApproximateMOCSampler.from_file(path, format=fmt, depth=cfg["depth"], seed=seed)

    # ------------------------------------------------------------ events
    def draw_real(self, num):
        self.count += 1
        how = self.count % 4
        rng = np.random.default_rng(self.x["seed"] + self.count) if self.count % 3 == 0 else None
        if how == 0:
            state = self.node.sample_parameters(num_samples=num, rng_info=rng)
            return [state[f"{self.node}.{c}"] for c in self.outputs]
        if how == 1:
            parent = ParameterizedNode()
            for c in self.outputs:
                parent.add_parameter("p_" + c, getattr(self.node, c))
            state = parent.sample_parameters(num_samples=num, rng_info=rng)
            return [parent.get_param(state, "p_" + c) for c in self.outputs]
        if how == 2:
            return list(self.node.generate(num_samples=num, rng_info=rng))
        # A second use of the node in the same sample sees the same position.
        a, b = ParameterizedNode(), ParameterizedNode()
        for c in self.outputs:
            a.add_parameter(c, getattr(self.node, c))
            b.add_parameter(c, getattr(a, c))
        state = b.sample_parameters(num_samples=num, rng_info=rng)
        return [b.get_param(state, c) for c in self.outputs]

    def draw_values(self, num):
        """The drawn columns, each of length num, or the name of what is wrong."""
        try:
            vals = self.draw_real(num)
        except IndexError:
            return "IndexError"
        except Exception as e:  # noqa: BLE001
            return f"{type(e).__name__}: {e}"
        if len(vals) != len(self.outputs):
            return "number of columns"
        for v in vals:
            if np.shape(v) != (() if num == 1 else (num,)):
                return f"shape {np.shape(v)} for {num} samples"
        out = [np.atleast_1d(np.asarray(v, dtype=float)) for v in vals]
        if self.cfg["kind"] == "sphere" and not self.x["degrees"]:
            out = [np.degrees(v) for v in out]
        return out

    def draw(self, num):
        vals = self.draw_values(num)
        if isinstance(vals, str):
            return {"k": "draw", "num": num, "r": vals, "samples": []}
        pix = [0] * len(vals[0])
        good = [bool(self.domain(*[v[i] for v in vals])) for i in range(len(vals[0]))]
        if self.cfg["kind"] == "moc" and all(good):
            pix = pixels(vals[0], vals[1], self.cfg["deep"])
        near = self.near(*vals)
        samples = [{"dom": good[i], "pix": int(pix[i]), "near": near[i]} for i in range(len(vals[0]))]
        return {"k": "draw", "num": num, "r": "ok", "samples": samples}

    def domain(self, ra, dec, time=0.0):
        if not (np.isfinite(ra) and np.isfinite(dec) and np.isfinite(time)) or abs(dec) > 90.0:
            return False
        if self.cfg["kind"] == "rows":  # the given right ascensions, moved by at most the radius (or over a pole)
            if self.cfg["exact"]:
                return 0.0 <= ra <= 360.0
            return -180.0 - self.x["radius"] <= ra <= 540.0 + self.x["radius"]
        return 0.0 <= ra < 360.0

    def near(self, ra, dec, time=None):
        """The rows (from 1) that fit each position."""
        if self.cfg["kind"] not in ("rows", "cover"):
            return [[] for _ in ra]
        rra, rdec, rtime = np.array(self.rows).T
        if self.cfg["exact"]:
            fit = (ra[:, None] == rra) & (dec[:, None] == rdec)
        else:
            fit = distances(ra, dec, rra, rdec) <= self.x["radius"] + EPS
        if time is not None:
            fit &= time[:, None] == rtime
        return [[int(i) + 1 for i in np.flatnonzero(f)] for f in fit]

    def reset(self):
        self.node.reset()
        return {"k": "reset"}

    def filter(self, keep, style=0):
        """Keep these rows (numbers from 0)."""
        left = [r for r in self.current if r in keep]
        if style % 2:
            self.obs.filter_rows(np.array([r in keep for r in self.current]))
        else:
            self.obs.filter_rows([i for i, r in enumerate(self.current) if r in keep])
        self.current = left
        return {"k": "filter", "keep": [k + 1 for k in keep]}

    def stat(self, n, groups):
        vals = self.draw_values(n)
        if isinstance(vals, str):
            return {"k": "draw", "num": n, "r": vals, "samples": []}
        counts = {g: 0 for g in groups(self)}
        for g in self.group(*vals):
            if g in counts:
                counts[g] += 1
        return {"k": "stat", "n": n, "counts": list(counts.values())}

    def spread(self, n):
        vals = self.draw_values(n)
        if isinstance(vals, str):
            return {"k": "draw", "num": n, "r": vals, "samples": []}
        d = distances(vals[0], vals[1], *np.array(self.rows).T[:2]).min(axis=1)
        return {"k": "spread", "n": n, "inner": int(np.sum(d < self.x["radius"] / 2))}

    def group(self, *vals):
        kind = self.cfg["kind"]
        if kind in ("sphere", "moc"):
            return [int(p) for p in pixels(vals[0], vals[1], self.x["statorder"] if kind == "sphere" else self.cfg["deep"])]
        return [hit[0] if len(hit) == 1 else None for hit in self.near(*vals)]

    def all_groups(self):
        kind = self.cfg["kind"]
        if kind == "sphere":
            return range(12 * 4 ** self.x["statorder"])
        if kind == "moc":
            c = self.cfg["cells"]
            up = self.cfg["deep"]
            return [k["p"] * 4 ** (up - k["o"]) + j for k in c for j in range(4 ** (up - k["o"]))]
        if kind == "rows":
            return self.cfg["given"]
        return [r + 1 for r in self.current]


def pixels(ra, dec, order):
    return lonlat_to_healpix(np.asarray(ra) * u.deg, np.asarray(dec) * u.deg, depth=order)


POLES = [90.0, -90.0, 89.5, -89.9, 89.99, -89.0]
RAS = [0.0, 359.9, 0.05, 180.0, 359.999, 90.0, 270.0]


def random_rows(rng, n, ints, apart=0.0):
    rows = []
    while len(rows) < n:
        ra = rng.choice(RAS) if rng.random() < 0.4 else rng.uniform(0, 359.99)
        dec = rng.choice(POLES) if rng.random() < 0.4 else rng.uniform(-90, 90)
        if ints:
            ra, dec = float(int(ra)), float(int(dec))
        if rows and apart and np.min(distances(ra, dec, *np.array(rows).T[:2])) < apart:
            if rng.random() < 0.02:
                break
            continue
        # Some rows share their position or their time.
        if rows and not apart and rng.random() < 0.25:
            ra, dec = rng.choice(rows)[:2]
        rows.append((ra, dec, rng.choice([0.0, 1.5, 60000.25]) if rng.random() < 0.4 else len(rows) * 3.5))
    return rows


def blank(kind):
    return {"kind": kind, "n": 0, "order": False, "given": [], "exact": False, "cells": [], "depth": 2, "deep": 2}


def random_trace(rng, n, tmp, kind=None):
    kind = kind or rng.choice(["sphere", "rows", "rows", "rows", "cover", "moc", "moc"])
    cfg = blank(kind)
    x = {"style": n, "seed": n + 17, "radius": 1.0, "own_radius": rng.random() < 0.3, "degrees": rng.random() < 0.6,
         "ints": rng.random() < 0.3, "statorder": rng.choice([0, 0, 1])}
    stats = rng.random() < 0.12
    if kind in ("rows", "cover"):
        m = rng.choice([1, 2, 3, 6, 12])
        if kind == "cover":
            m = rng.choice([1, 2, 4])
            x["radius"] = rng.choice([25.0, 40.0, 60.0, 90.0])
            if stats:
                x["radius"] = rng.choice([25.0, 40.0])
        else:
            x["radius"] = rng.choice([0.0, 0.0, 0.01, 1.75, 10.0])
            cfg["exact"] = x["radius"] == 0.0
            cfg["order"] = rng.random() < 0.5 and not stats
        x["rows"] = random_rows(rng, m, x["ints"], apart=2 * x["radius"] + 0.1 if stats else 0.0)
        m = len(x["rows"])
        cfg["n"] = m
        given = [i + 1 for i in range(m) if rng.random() < 0.8] if rng.random() < 0.4 else list(range(1, m + 1))
        cfg["given"] = given or [1]
    elif kind == "moc":
        orders = rng.choice([[1], [3], [2, 4], [0, 3], [3, 5, 6], [7], [10]])
        cfg["deep"] = max(orders)
        # The sampler lists the pixels of its depth, so a deep one is only given a fine map.
        cfg["depth"] = rng.choice([max(2, cfg["deep"]), max(2, cfg["deep"]), min(orders) + 6, 2, 3])
        if rng.random() < 0.1:
            orders, cfg["depth"] = [11, 12], rng.choice([17, 18, 10])
        cfg["deep"] = min(max(max(orders), cfg["depth"]), 12)
        if stats:  # equally large cells, seen four or more times finer
            o = rng.choice([1, 3, 6])
            cfg["depth"] = rng.choice([max(o, 2), 5 if o < 5 else 9, o + 6])
            cfg["deep"] = o + 1
            orders = [o]
        cells = set()
        for _ in range(rng.choice([1, 2, 5]) if not stats else rng.choice([1, 3])):
            o = rng.choice(orders)
            cells.add((o, rng.choice([0, 12 * 4**o - 1, rng.randrange(12 * 4**o)])))
        cells = [c for c in cells if not any(d[0] < c[0] and c[1] // 4 ** (c[0] - d[0]) == d[1] for d in cells)]
        cfg["cells"] = [{"o": o, "p": p} for o, p in cells]
    w = World(cfg, x, tmp)
    ev = []
    for _ in range(rng.choice([2, 4, 8])):
        y = rng.random()
        if y < 0.15 and kind == "rows":
            ev.append(w.reset())
        elif y < 0.35 and kind in ("rows", "cover") and not stats and len(w.current) > 1:
            keep = [r for r in w.current if rng.random() < 0.7] or [w.current[0]]
            ev.append(w.filter(keep, rng.randrange(2)))
        else:
            ev.append(w.draw(rng.choice([1, 1, 2, 3, 5] if cfg["order"] else [1, 1, 2, 7, 30])))
    if stats and (kind != "rows" or not cfg["order"]):
        ev.append(w.stat(1200 if x["statorder"] == 0 else 2400, World.all_groups))
    if kind == "rows" and not cfg["exact"] and len(cfg["given"]) == len(x["rows"]) and stats:
        ev.append(w.spread(400))
    return {"cfg": cfg, "ev": ev}


def constructors(ctx, tmp):
    data = {"ra": [1.0, 2.0], "dec": [3.0, 4.0], "time": [5.0, 6.0], "filter": ["r", "r"], "zp": [1.0, 1.0]}

    def obs(radius=None, empty=False):
        t = FakeObsTable(pd.DataFrame(data), radius=radius, const_flux_error=1.0)
        return t.filter_rows([]) if empty else t

    moc = MOC.from_json({"3": [5]})
    cases = [
        (lambda: ObsTableRADECSampler(obs()), ValueError), (lambda: ObsTableRADECSampler(obs(), radius=-0.1), ValueError),
        (lambda: ObsTableRADECSampler(obs(1.0, True)), ValueError),
        (lambda: ObsTableUniformRADECSampler(obs()), ValueError), (lambda: ObsTableUniformRADECSampler(obs(), radius=0.0), ValueError),
        (lambda: ObsTableUniformRADECSampler(obs(), radius=-1.0), ValueError),
        (lambda: ObsTableUniformRADECSampler(obs(1.0, True)), ValueError),
        (lambda: ObsTableUniformRADECSampler(obs(1.0), max_iterations=0), ValueError),
        (lambda: ApproximateMOCSampler(moc, depth=1), ValueError), (lambda: ApproximateMOCSampler(moc, depth=30), ValueError),
        (lambda: ApproximateMOCSampler.from_file(os.path.join(tmp, "none.fits")), FileNotFoundError),
    ]
    for k, (fn, cls) in enumerate(cases):
        ctx.steps += 1
        try:
            fn()
            ctx.violation(f"sampler {k} without a usable radius, table or map is accepted", {"case": k})
        except cls:
            pass
        except Exception as e:  # noqa: BLE001
            ctx.violation(f"sampler {k}: raised {type(e).__name__} instead of {cls.__name__}", {"case": k})


def replay(ctx, log, n):
    cfg = log[0]["cfg"]
    cfg = dict(cfg, cells=[])
    x = {"style": n, "seed": n, "radius": 0.0 if cfg["exact"] else 2.0, "own_radius": n % 2 == 0, "ints": False,
         "rows": [(359.0 + 0.3 * i, -88.0 - i, 3.0 + i) for i in range(cfg["n"])]}
    w = World(cfg, x, None)
    for e in log[1:]:
        ctx.steps += 1
        op, out = e["op"], e["out"]
        if op["k"] == "reset":
            w.reset()
        elif op["k"] == "filter":
            w.filter([r - 1 for r in op["keep"]], n)
        else:
            got = w.draw(op["num"])
            if got["r"] != out["r"] or (got["r"] == "ok" and any(r not in g["near"] for r, g in zip(out["rows"], got["samples"]))):
                ctx.violation(f"draw in order: specified {out}, got {got}", {"log": log})
                return


def run(ctx):
    for n, log in enumerate(ctx.explore("Sky", 4 if ctx.quick else 6, CONST)):
        ctx.traces += 1
        replay(ctx, log, n)
        if ctx.too_many():
            return
    with tempfile.TemporaryDirectory() as tmp:
        constructors(ctx, tmp)
        traces = [random_trace(ctx.rng, n, tmp) for n in range(1500 if ctx.quick else 15000)]
    ctx.steps += sum(len(t["ev"]) for t in traces)
    for t, bad in zip(traces, ctx.accept("Sky", traces, CONST)):
        if bad:
            ev = dict(t["ev"][bad["i"]])
            ctx.violation(bad["clause"] + (f" ({ev['r']})" if ev.get("r", "ok") != "ok" else ""),
                          {"cfg": t["cfg"], "event": ev, "before": [e["k"] for e in t["ev"][:bad["i"]]]})
    ctx.sample(traces[0])
