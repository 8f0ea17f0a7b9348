"""Binds specs/Templates.tla to the light curve templates (property P16)."""

import gzip
import logging
import os
import shutil
import tempfile
import warnings

import numpy as np
from astropy.table import Table
from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.math_nodes.single_value_node import SingleVariableNode
from lightcurvelynx.models.lightcurve_template_model import LightcurveData, LightcurveTemplateModel, MultiLightcurveTemplateModel

from vlib.core import aslist

logging.disable(logging.CRITICAL)


def mag(v):
    return 31.4 - 2.5 * v


class World:
    def __init__(self, cfg, style):
        self.cfg, self.style = cfg, style
        self.ts = [1.0, 0.5, 2.0, 0.125][style % 4]
        self.off = [0.0, 59000.0, -1000.0][style % 3]  # of the times of the curves
        self.day = [0.0, 60000.0, 32.0, -16.0, 0.0][style % 5]  # of the times of the observations
        self.ws = [1.0, 64.0, 100.0][(style // 2) % 3]
        self.made, self.inputs = "ok", []
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.make()
        except ValueError as e:
            self.made, self.text = "ValueError", str(e)

    def ref(self, d, t):
        per = d["per"] if d["form"] == "curves" else d["recur"] in ("PERIODIC", "RECUR-PERIODIC")
        return 0.0 if per and t == 0 else self.off + t * self.ts

    def given(self, d, k):
        """The arguments of a LightcurveData."""
        value = mag if d["mag"] else float
        style = self.style + k
        points = {c["f"]: [[self.off + t * self.ts, value(v)] for t, v in aslist(c["p"])] for c in aslist(d["curves"])}
        if style % 3 == 0 and points:
            rows = [[t, v, f] for f, p in points.items() for t, v in p]
            if style % 2 and all(a == sorted(a) for a in points.values()):
                rows = sorted(rows, key=lambda r: r[0])  # the filters mixed
            curves = np.array(rows, dtype=object) if style % 2 else np.array(rows)
        else:
            curves = {}
            for f, p in points.items():
                if style % 3 == 1:
                    p = [q + [0.5] for q in p]  # with errors
                curves[f] = np.array(p) if style % 5 else np.array([[int(x) for x in q] if all(x == int(x) for x in q) else q for q in p])
        kw = {"lc_data_t0": self.ref(d, d["ref"]), "periodic": d["per"], "magnitudes_in": d["mag"]}
        if d["base"]:
            kw["baseline"] = {f: value(v) for f, v in aslist(aslist(d["base"])[0])}
        self.inputs.append((curves, {f: np.array(c) for f, c in curves.items()} if isinstance(curves, dict) else np.array(curves),
                            kw.get("baseline"), dict(kw.get("baseline") or {})))
        return curves, kw

    def table(self, d):
        data = {"time": [self.off + t * self.ts for t in d["time"]]}
        if d["type"]:
            data["type"] = d["type"]
        names = list(data)
        for c in d["col"]:
            data[c["f"]] = [mag(v) for v in c["v"]]
        if self.style % 3 == 1:
            names = names[::-1]
        table = Table(data, names=[c["f"] for c in d["col"]] + names if self.style % 2 else names + [c["f"] for c in d["col"]])
        if d["recur"]:
            table.meta["RECUR_CLASS"] = d["recur"]
        return table

    def data(self, d, k):
        if d["form"] == "curves":
            curves, kw = self.given(d, k)
            return LightcurveData(curves, **kw)
        kw = {}
        if d["ref"]:
            kw["forced_lc_t0"] = self.ref(d, d["ref"][0])
        if d["pick"]:
            kw["filters"] = list(d["pick"][0])
        table = self.table(d)
        before = table.copy()
        lc = LightcurveData.from_lclib_table(table, **kw)
        if not (list(before.colnames) == list(table.colnames) and all(list(before[c]) == list(table[c]) for c in before.colnames)):
            raise RuntimeError("the given table is changed")
        return lc

    def filed(self):
        """All templates come from one file in the LCLIB format."""
        tabs = self.cfg["lcs"]
        return (self.style % 2 == 0 and all(d["form"] == "table" and d["type"] for d in tabs) and len({d["recur"] for d in tabs}) == 1
                and len({tuple(c["f"] for c in d["col"]) for d in tabs}) == 1 and len({str(d["pick"]) for d in tabs}) == 1
                and len({bool(d["ref"]) for d in tabs}) == 1)

    def from_file(self, group, kw):
        tabs = self.cfg["lcs"]
        lines = ["DOCUMENTATION:", "  PURPOSE: check", "  FILTERS: zz", "DOCUMENTATION_END:", "", "SURVEY: LSST", "FILTERS: " + "".join(c["f"] for c in tabs[0]["col"])]
        if tabs[0]["recur"]:
            lines.append("RECUR_CLASS: " + tabs[0]["recur"])
        for k, d in enumerate(tabs):
            lines += ["#" + "-" * 20, f"START_EVENT: {k}", f"NROW: {len(d['time'])} l: 307.7 b: -51.2"]
            for r, t in enumerate(d["time"]):
                lines.append(f"{d['type'][r]}:  {self.off + t * self.ts!r}  " + "  ".join(f"{mag(c['v'][r]):.3f}" for c in d["col"]) + ("   # note" if r % 2 else ""))
            lines.append(f"END_EVENT: {k}")
        if tabs[0]["pick"]:
            kw["filters"] = list(tabs[0]["pick"][0])
        if tabs[0]["ref"]:
            refs = [self.ref(d, d["ref"][0]) for d in tabs]
            kw["forced_lc_t0"] = refs[0] if len(set(refs)) == 1 and self.style % 4 else refs
        tmp = tempfile.mkdtemp(prefix="vlclib")
        try:
            path = os.path.join(tmp, "t.TEXT" if self.style % 4 else "t.text.gz")
            with (open if self.style % 4 else gzip.open)(path, "wt") as f:
                f.write("\n".join(lines) + "\n")
            return MultiLightcurveTemplateModel.from_lclib_file(path, group, **kw)
        finally:
            shutil.rmtree(tmp)

    def make(self):
        cfg = self.cfg
        bands = [Passband(np.array([[w * self.ws, w * self.ws * k] for w, k in aslist(b["p"])]), "S", b["f"], delta_wave=None, trim_quantile=None) for b in cfg["bands"]]
        self.group = PassbandGroup(bands)
        passbands = bands[0] if len(bands) == 1 and self.style % 2 else self.group
        kw = {"ra": 1.0, "dec": 2.0}
        self.lists = []
        if cfg["t0"]:
            t0 = [self.day + t * self.ts for t in cfg["t0"]]
            if len(set(t0)) == 1 and self.style % 2:
                kw["t0"] = t0[0] if self.style % 4 else SingleVariableNode("t", t0[0]).t
            else:
                self.lists.append(GivenValueList(t0))
                kw["t0"] = self.lists[0]
        elif self.style % 2:
            kw["t0"] = None
        if cfg["multi"]:
            if cfg["w"]:
                kw["weights"] = list(cfg["w"]) if self.style % 2 else np.array(cfg["w"]) / 4
            if self.filed():
                self.model = self.from_file(passbands, kw)
            else:
                self.model = MultiLightcurveTemplateModel([self.data(d, k) for k, d in enumerate(cfg["lcs"])], passbands, **kw)
            self.lcs = self.model.lightcurves
        else:
            d = cfg["lcs"][0]
            if d["form"] == "curves" and not d["mag"] and self.style % 3:
                curves, args = self.given(d, 0)
                args.pop("magnitudes_in")
                self.model = LightcurveTemplateModel(curves, passbands, **args, **kw)
            else:
                self.model = LightcurveTemplateModel(self.data(d, 0), passbands, 0.0, **kw)
            self.lcs = [self.model.lightcurves]

    # ------------------------------------------------------------ operations
    def step(self, op, sel=None):
        self.style += 1
        try:
            return getattr(self, "do_" + op["k"])(op, sel)
        except (ValueError, KeyError, IndexError) as e:
            return {"r": type(e).__name__, "text": str(e)[:150]}

    def state(self, sel):
        for tries in range(400):
            for node in self.lists:
                node.reset()
            state = self.model.sample_parameters(num_samples=self.cfg["n"], rng_info=np.random.default_rng(self.style * 1000 + tries) if sel else None)
            got = [int(x) for x in np.atleast_1d(state[self.model.node_string]["selected_lightcurve"])] if self.cfg["multi"] else [0] * self.cfg["n"]
            self.sel = got
            if sel is None or got == sel:
                return state, got
        raise ValueError(f"the model never chooses the templates {sel}")

    def times(self, op):
        return np.array([self.day + t * self.ts for t in aslist(op["times"])])

    def do_band(self, op, sel):
        state, got = self.state(sel)
        times, filters = self.times(op), np.array(aslist(op["filters"]), dtype=str)
        keep = times.copy(), filters.copy()
        res = self.model.evaluate_bandfluxes(self.group, times, filters, state)
        if not (np.array_equal(keep[0], times) and np.array_equal(keep[1], filters)):
            return {"r": "the given times or filters are changed"}
        want = (len(times),) if self.cfg["n"] == 1 else (self.cfg["n"], len(times))
        if np.shape(res) != want:
            return {"r": f"shape {np.shape(res)}"}
        return {"r": "band", "flux": np.reshape(res, (self.cfg["n"], len(times))).tolist(), "sel": got}

    def do_sed(self, op, sel):
        state, got = self.state(sel)
        waves = np.array(op["waves"], dtype=float) * self.ws
        singles = [state] if self.cfg["n"] == 1 else list(state)
        return {"r": "sed", "flux": [self.model.compute_sed(self.times(op), waves, s).tolist() for s in singles], "sel": got}

    def do_data(self, op, sel):
        res = self.lcs[op["lc"] - 1].evaluate_sed(np.array(op["times"]) * self.ts, op["f"])
        return {"r": "data", "flux": res.tolist()}

    def do_state(self, op, sel):
        state, got = self.state(sel)
        vals = state[self.model.node_string]
        filters = sorted({f for lc in self.lcs for f in lc.filters})
        names = {k for k in vals if k.startswith("baseline_")}
        if self.cfg["multi"]:
            if names != {"baseline_" + f for f in filters}:
                return {"r": f"parameters {sorted(names)}"}
            base = {f: np.atleast_1d(vals["baseline_" + f]).tolist() for f in filters}
        else:
            base = {f: [self.lcs[0].baseline[f]] * self.cfg["n"] for f in filters}
        return {"r": "state", "base": base, "sel": got}

    def obs(self):
        if self.made != "ok":
            return {"made": self.made, "lcs": []}
        for curves, keep, base, kbase in self.inputs:
            same = all(np.array_equal(curves[f], keep[f]) for f in keep) if isinstance(curves, dict) else np.array_equal(curves, keep)
            if not same or (base is not None and base != kbase):
                return {"made": "the caller's curves are changed", "lcs": []}
        out = []
        for lc in self.lcs:
            out.append({"ref": (lc.lc_data_t0 - self.off) / self.ts, "per": 0 if lc.period is None else lc.period / self.ts, "f": sorted(lc.filters),
                        "range": {f: [lc.min_times[f] / self.ts, lc.max_times[f] / self.ts] for f in lc.filters}})
        return {"made": "ok", "lcs": out}


def close(a, b, top):
    return abs(a - b) <= 1e-9 * (top + abs(b)) + 1e-12


def compare(cfg, op, out, got):
    if out["r"] != got["r"]:
        return f"{op['k']} gives {got['r']} {got.get('text', '')}, not {out['r']}"
    if "ok" in out and not out["ok"]:
        return f"the chosen templates {got['sel']} have no weight"
    if out["r"] == "state":
        for i, w in enumerate(aslist(out["base"])):
            for f, v in w.items():
                if not close(got["base"][f][i], v, 1):
                    return f"baseline in {f} of sample {i} (template {got['sel'][i]}): {got['base'][f][i]}, not {v}"
    if "flux" in out:
        def flat(x, path):
            if x and isinstance(x[0], list):
                for k, y in enumerate(x):
                    yield from flat(y, path + (k,))
            else:
                for k, y in enumerate(x):
                    yield path + (k,), y

        def want(x, depth):
            return [want(y, depth - 1) for y in aslist(x)] if depth else x[0] / x[1]

        w = list(flat(want(out["flux"], {"band": 2, "sed": 3, "data": 1}[op["k"]]), ()))
        g = list(flat(got["flux"], ()))
        if [p for p, _ in w] != [p for p, _ in g]:
            return "shape of the fluxes"
        top = max([abs(v) for _, v in w], default=0)
        for (p, a), (_, b) in zip(w, g):
            if not close(b, a, top):
                return f"flux at {p}: {b}, not {a}"
    return None


def observe(ctx, script, style, log, obs):
    want = log[0]["obs"]
    lcs = [dict(x, f=sorted(aslist(x["f"]))) for x in aslist(want["lcs"])]
    if want["made"] != obs["made"] or (lcs and [x["f"] for x in lcs] != [x["f"] for x in obs["lcs"]]):
        return f"construction: {want}, got {obs}"
    for a, b in zip(lcs, obs["lcs"]):
        pairs = [(a["ref"], b["ref"]), (a["per"], b["per"])] + [(a["range"][f][k], b["range"][f][k]) for f in a["f"] for k in (0, 1)]
        if not all(close(y, x, 1) for x, y in pairs):
            return f"times of the template: {a}, got {b}"
    return None


def replay(ctx, script, style, log, real=None):
    """Replays a history of the specification (real is None) or compares a recorded one."""
    if real is None:
        world = World(script["cfg"], style)
        obs0, outs = world.obs(), None
    else:
        obs0, outs, last = real
    case = {"style": style, **script}
    bad = observe(ctx, script, style, log, obs0)
    if bad:
        ctx.violation(bad, dict(case, text=getattr(world, "text", "") if real is None else ""))
        return
    for k, op in enumerate(script["ops"]):
        got = outs[k] if outs is not None else world.step(op, aslist(op.get("sel")) or None)
        ctx.steps += 1
        bad = compare(script["cfg"], op, log[k + 1]["out"], got)
        if bad:
            ctx.violation(bad, dict(case, op=op))
            return
    if script["ops"]:
        bad = observe(ctx, script, style, [log[-1]], world.obs() if real is None else last)
        if bad:
            ctx.violation(f"after evaluations: {bad}", case)
            return
    ctx.traces += 1
    ctx.sample({"cfg": script["cfg"], "ops": script["ops"][:2]})


def tidy(c):
    c = dict(c, t0=aslist(c["t0"]), w=aslist(c["w"]), lcs=aslist(c["lcs"]), bands=aslist(c["bands"]))
    for d in c["lcs"]:
        for key in ("base", "curves", "time", "type", "col", "pick", "ref"):
            if key in d and not isinstance(d[key], int):
                d[key] = aslist(d[key])
        d.setdefault("per", False)
    return c


def exhaustive(ctx, depth):
    for n, log in enumerate(ctx.explore("Templates", depth)):
        log = aslist(log)
        script = {"cfg": tidy(log[0]["cfg"]), "ops": [e["op"] for e in log[1:]]}
        replay(ctx, script, n % 60, log)
        if ctx.too_many():
            return


# ---------------------------------------------------------------- random templates
def template(rng, names, multi):
    if rng.random() < 0.3:
        rows = rng.randint(2, 6)
        gap, a = rng.randint(1, 4), rng.randint(-3, 6)
        b = a + (rows - 1) * gap
        inner = sorted(rng.sample(range(a + 1, b), rows - 2)) if b - a - 1 >= rows - 2 else list(range(a + 1, b))[: rows - 2]
        time = [a] + inner + [b]
        rows = len(time)
        if rows > 1 and (b - a) % (rows - 1):
            return template(rng, names, multi)
        kind = ["S"] * rows if rng.random() < 0.7 else []
        if kind:
            for _ in range(rng.choice([0, 1, 1, 2])):
                k = rng.choice([0, 0, len(time)])
                time.insert(k, rng.choice([0, a, 99]))
                kind.insert(k, "T")
        cols = rng.sample(names, rng.randint(1, len(names)))
        col = [{"f": f, "v": [rng.randint(0, 4) for _ in time]} for f in cols]
        recur = rng.choice(["", "NON-RECUR", "RECUR-NONPERIODIC", "PERIODIC", "PERIODIC", "RECUR-PERIODIC", "ODD" if rng.random() < 0.2 else "PERIODIC"])
        if "PERIODIC" in recur and recur != "RECUR-NONPERIODIC" and rng.random() < 0.4 and kind:
            first, last = kind.index("S"), len(kind) - 1 - kind[::-1].index("S")
            for c in col:
                c["v"][last] = c["v"][first]
        pick = [rng.sample(names, rng.randint(1, len(names)))] if rng.random() < 0.3 else []
        ref = [rng.choice([a, rng.randint(-4, 9)])] if rng.random() < 0.3 else []
        return {"form": "table", "time": time, "type": kind, "col": col, "recur": recur, "pick": pick, "ref": ref}
    per = rng.random() < 0.4
    mags = rng.random() < 0.3
    val = (lambda: rng.randint(0, 4)) if mags else (lambda: rng.randint(-20, 60) if rng.random() < 0.3 else rng.randint(0, 60))
    cols = rng.sample(names, rng.randint(1, len(names)))
    curves = []
    common = sorted(rng.sample(range(-6, 20), rng.randint(2 if per else 1, 6)))
    if rng.random() < 0.4:
        common = [t - common[0] for t in common]
    for f in cols:
        ts = common if per or rng.random() < 0.4 else sorted(rng.sample(range(-6, 20), rng.randint(1, 6)))
        p = [[t, val()] for t in ts]
        if per:
            p[-1][1] = p[0][1]
        curves.append({"f": f, "p": p})
    wrong = rng.random()
    if wrong < 0.04:
        c = rng.choice(curves)["p"]
        if len(c) > 1:
            k = rng.randrange(len(c) - 1)
            c[k + 1][0] = c[k][0] - rng.choice([0, 1])
    elif wrong < 0.08 and per:
        c = rng.choice(curves)["p"]
        if rng.random() < 0.5:
            c[-1][1] = c[0][1] + rng.choice([1, 1 if mags else -1])
        elif len(c) > 2:
            c.pop(1)
    ref = rng.choice([0, common[0]]) if per and rng.random() < 0.9 else rng.randint(-8, 20) if rng.random() < 0.7 else 0
    base = []
    if rng.random() < 0.5:
        have = cols + [f for f in names if f not in cols and rng.random() < 0.4]
        rng.shuffle(have)
        base = [[[f, val()] for f in have]]
        if rng.random() < 0.06:
            base[0].pop()
    return {"form": "curves", "curves": curves, "ref": ref, "per": per, "mag": mags, "base": base}


def bands(rng, names):
    out, edge = [], rng.randint(2, 20)
    for f in names:
        n = rng.randint(2, 5)
        grid = sorted({edge} | {edge + x for x in rng.sample(range(1, 16), n - 1)})
        p = [[w, rng.randint(1, 4)] for w in grid]
        if rng.random() < 0.3:
            rng.choice(p)[1] = 0
        if sum(k for _, k in p) == 0 or sum(1 for _, k in p if k) < 2:
            p[0][1] = p[-1][1] = 1
        out.append({"f": f, "p": p})
        edge = max(1, grid[rng.randrange(len(grid)) if rng.random() < 0.1 else -1] + rng.choice([0, 0, 1, 5]) - rng.choice([0, 0, 0, 3]))
    rng.shuffle(out)
    return out


def scenario(rng):
    names = rng.sample(["g", "r", "i", "u", "Y"], rng.choice([1, 2, 2, 3]))
    multi = rng.random() < 0.5
    lcs = [template(rng, names, multi) for _ in range(rng.choice([1, 2, 3]) if multi else 1)]
    if multi and rng.random() < 0.4:
        first = next((d for d in (template(rng, names, multi) for _ in range(30)) if d["form"] == "table" and d["type"]), None)
        if first:
            # the events of one file
            lcs = []
            for k in range(rng.randint(1, 3)):
                d = dict(first, col=[{"f": c["f"], "v": [rng.randint(0, 4) for _ in c["v"]]} for c in first["col"]])
                lcs.append(d)
    n = rng.choice([1, 1, 2, 3, 5])
    known = list(names) + ["z"]
    for d in lcs:
        if rng.random() < 0.02 and d["form"] == "curves":
            d["curves"][0]["f"] = "X"
    return {"n": n, "t0": [rng.randint(-10, 12) for _ in range(n)] if rng.random() < 0.7 else [rng.randint(-10, 12)] * n if rng.random() < 0.95 else [],
            "multi": multi, "w": [rng.choice([0, 1, 2, 5]) for _ in lcs[1:]] + [1] if multi and rng.random() < 0.4 else [],
            "lcs": lcs, "bands": bands(rng, known if rng.random() < 0.5 else names)}


def operation(rng, cfg, world):
    names = [b["f"] for b in cfg["bands"]]
    inner = [f for lc in world.lcs for f in lc.filters]
    near = sorted({t for d in cfg["lcs"] for c in d.get("curves", []) for t, _ in c["p"]} | {t for d in cfg["lcs"] for t in d.get("time", [])})
    when = lambda: (rng.choice(near) if near and rng.random() < 0.5 else rng.randint(-30, 45)) + rng.choice([0, rng.choice(cfg["t0"])]) - rng.choice([0, 0, near[0] if near else 0])  # noqa: E731
    ts = [when() for _ in range(rng.choice([0, 1, 3, 8]))]
    k = rng.choice(["band"] * 4 + ["sed", "sed", "data", "state"])
    if k == "band":
        everywhere = set.intersection(*[set(lc.filters) for lc in world.lcs])
        pool = sorted(everywhere) if everywhere and rng.random() < 0.8 else inner if rng.random() < 0.9 else names
        op = {"k": "band", "times": ts, "filters": [rng.choice(pool) for _ in ts]}
    elif k == "sed":
        grid = sorted({w for b in cfg["bands"] for w, _ in b["p"]})
        op = {"k": "sed", "times": ts[:4], "waves": [rng.choice(grid) if rng.random() < 0.6 else rng.randint(1, 70) for _ in range(rng.randint(1, 5))]}
        if rng.random() < 0.2:
            op["waves"] = grid
    elif k == "data":
        op = {"k": "data", "lc": rng.randint(1, len(world.lcs)), "f": rng.choice(inner if rng.random() < 0.8 else names), "times": ts}
    else:
        op = {"k": "state"}
    return op


def random_histories(ctx, count, steps):
    scripts, real = [], []
    for n in range(count):
        cfg = scenario(ctx.rng)
        world = World(cfg, n)
        obs0 = world.obs()
        ops, outs = [], []
        for _ in range(ctx.rng.randint(1, steps) if world.made == "ok" else 0):
            op = operation(ctx.rng, cfg, world)
            out = world.step(op)
            if op["k"] != "data":
                op["sel"] = list(world.sel)
            ops.append(op)
            outs.append(out)
        scripts.append({"cfg": cfg, "ops": ops})
        real.append((obs0, outs, world.obs()))
    logs = ctx.oracle("Templates", scripts, chunk=400)
    for n, (script, log, r) in enumerate(zip(scripts, logs, real)):
        if log is not None:
            replay(ctx, script, n, aslist(log), r)
        if ctx.too_many():
            return
