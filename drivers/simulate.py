"""Binds specs/Simulate.tla to simulate_lightcurves and compute_noise_free_lightcurves (properties P09 and P10)."""

import math

import numpy as np
from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
from lightcurvelynx.graph_state import GraphState
from lightcurvelynx.simulate import compute_noise_free_lightcurves, simulate_lightcurves

from drivers import noise, pipeline
from vlib.core import aslist

# Places farther apart than any field of view, among them the pole and the two sides of the zero of RA
PLACES = [(10.0, -20.0), (200.0, 40.0), (359.98, 8.0), (77.0, 89.9)]
KINDS = [k for k in pipeline.ALL if k != "gauss"]


def fl(x):
    return x[0] / x[1]


class Survey(noise.World):
    places = PLACES

    def __init__(self, cfg, lat, style):
        self.lat = lat
        self.filters = cfg["names"]
        # A column known under a second name is in the table under that one
        self.alias = {k: "raw_" + k for k in cfg["extra"] if "raw_" + k in cfg["extra"]}
        self.more = {k: np.array(v) for k, v in cfg["extra"].items() if not k.startswith("raw_")}
        self.settings = {"radius": 180.0 if cfg["all"] else [1.0, 0.75, 3.0][style % 3]}
        super().__init__(cfg["nz"], style)
        if self.made != "ok":
            raise RuntimeError(f"a table is not made: {self.text}")

    def when(self, time):
        return float(self.lat.t(time))


def interest(pipe, mask):
    """The model tells the times of interest, which are its parameters."""
    cls = type(pipe.model)

    def mask_by_time(self, times, graph_state=None):
        p = self.get_local_params(graph_state)
        return (times >= p["first_time"]) & (times <= p["last_time"])

    pipe.model.add_parameter("first_time", pipe.value(pipe.lat.t(mask["lo"])))
    pipe.model.add_parameter("last_time", pipe.value(pipe.lat.t(mask["hi"])))
    pipe.model.__class__ = type(cls.__name__, (cls,), {"mask_by_time": mask_by_time})


class World:
    def __init__(self, cfg, style):
        self.cfg, self.style = cfg, style
        n = cfg["pipe"]["n"]
        spots = [PLACES[p] for p in cfg["place"]]
        self.ra = [r + 0.003 * k for k, (r, _) in enumerate(spots)]
        self.dec = [d - 0.002 * k for k, (_, d) in enumerate(spots)]
        if all(p == 2 for p in cfg["place"]) and style % 2:
            self.ra = [0.02 + 0.003 * k for k in range(n)]

        def top(world):
            kw = {"ra": world.value(self.ra), "dec": world.value(self.dec)}
            if cfg["pipe"]["objs"][0]["m"] in ("add", "rand") and cfg["t0"]:
                kw["t0"] = world.value(world.lat.t(cfg["t0"]))
            return kw

        self.pipe = pipeline.World(cfg["pipe"], style, top=top)
        for e in aslist(cfg["effects"]):
            self.pipe.do_effect({"e": e})
        lat = self.pipe.lat
        if cfg["mask"]["lo"]:
            interest(self.pipe, cfg["mask"])
        self.surveys = [Survey(dict(s, names=["?"] + cfg["names"]), lat, style + 3 * j) for j, s in enumerate(cfg["surveys"])]
        self.groups = [PassbandGroup([Passband(np.array([[lat.w(w), float(lat.w(w)) * k] for w, k in aslist(tab)]), "S", f, delta_wave=None, trim_quantile=None)
                                      for f, tab in s["bands"].items()]) for s in cfg["surveys"]]
        self.z = []

    def step(self, op):
        self.style += 1
        try:
            return getattr(self, "do_" + op["k"])(op)
        except (ValueError, KeyError, IndexError) as e:
            return {"r": type(e).__name__, "text": str(e)[:150]}

    def restart(self):
        for node in self.pipe.lists:
            node.reset()
        self.pipe.model.set_graph_positions()

    def do_keep(self, op):
        return self.surveys[op["survey"] - 1].do_keep(op)

    def do_sim(self, op):
        model, lat, n = self.pipe.model, self.pipe.lat, self.cfg["pipe"]["n"]
        tables = [s.obj for s in self.surveys]
        groups = self.groups[:op["groups"]] + self.groups[:1] * (op["groups"] - len(self.groups))
        one = len(tables) == 1 and len(groups) == 1 and self.style % 2
        self.restart()
        state = model.sample_parameters(num_samples=n)
        self.restart()
        name = str(model)
        params = [f"{model.node_string}.ra", f"{model.node_string}.t0"] + [p for p in state.get_all_params_names()][:1]
        params = [params, params[1:], None][self.style % 3]
        kw = {}
        before, after = aslist(op["before"]), aslist(op["after"])
        if before or after or self.style % 5 == 0:
            kw["time_window_offset"] = tuple(b[0] * lat.ts if b else None for b in (before, after))
        if aslist(op["cols"]) or self.style % 2:
            kw["obstable_save_cols"] = list(op["cols"])
        if params is not None or op["bad"]:
            kw["param_cols"] = (params or []) + (["no.such"] if op["bad"] else [])
        if op["mask"]:
            kw["apply_obs_mask"] = True
        keep = [t._table.copy() for t in tables]
        seed = op["seed"] if "seed" in op else self.style
        res = simulate_lightcurves(model, n if op["num"] > 0 else op["num"], tables[0] if one else tables, groups[0] if one else groups,
                                   rng=np.random.default_rng(seed), **kw)
        for t, k in zip(tables, keep):
            if not t._table.equals(k):
                return {"r": "a table of observations is changed"}
        if str(model) != name:
            return {"r": "the model is renamed"}
        return self.collect(res, op, params)

    def collect(self, res, op, params):
        """The result frame in terms of the specification, with the consistency checks within the frame."""
        model, n = self.pipe.model, self.cfg["pipe"]["n"]
        lat = self.pipe.lat
        if len(res) != n or list(res["id"]) != list(range(n)):
            return {"r": f"{len(res)} rows with ids {list(res['id'])}"}
        objs, agree = [], "ok"
        states = []
        for i in range(n):
            state = GraphState.from_dict(res["params"].iloc[i])
            states.append(state)
            lc = res["lightcurve"].iloc[i]
            if lc is None or not hasattr(lc, "columns"):
                lc = res["lightcurve"].nest.to_flat().iloc[:0]
            for p in params or []:
                col = p.replace(".", "_")
                want, got = state[p], res[col].iloc[i]
                if not (want is got or want == got or (want is None and got != got)):
                    agree = f"column {col} of object {i} is {got}, not {want}"
            if not (state[f"{model.node_string}.ra"] == res["ra"].iloc[i] and state[f"{model.node_string}.dec"] == res["dec"].iloc[i]):
                agree = f"position of object {i}"
            if not (abs(res["ra"].iloc[i] - self.ra[i]) < 1e-12 and abs(res["dec"].iloc[i] - self.dec[i]) < 1e-12):
                agree = f"position of object {i}: {(res['ra'].iloc[i], res['dec'].iloc[i])}, not {(self.ra[i], self.dec[i])}"
            if res["nobs"].iloc[i] != len(lc):
                agree = f"nobs of object {i} is {res['nobs'].iloc[i]} for {len(lc)} observations"
            rows = []
            sv = [int(x) for x in lc["survey_idx"]]
            if sv != sorted(sv):
                agree = "surveys are not in order"
            for j in range(len(self.surveys)):
                part = lc[np.array([x == j for x in sv], dtype=bool)]
                again = model.evaluate_bandfluxes(self.groups[j], part["mjd"].to_numpy(dtype=float), part["filter"].to_numpy(dtype=str), state) if len(part) else np.array([])
                if not np.allclose(again, part["flux_perfect"].to_numpy(dtype=float), rtol=1e-12, atol=1e-12):
                    agree = f"the saved parameters of object {i} do not give its fluxes"
            for k in range(len(lc)):
                cols = []
                for c in aslist(op["cols"]):
                    v = lc[c].iloc[k]
                    cols.append([] if v is None or v != v or str(v) == "<NA>" else [int(v) if v == int(v) else float(v)])
                rows.append({"survey": sv[k], "t": float(lat.t_back(lc["mjd"].iloc[k])), "f": str(lc["filter"].iloc[k]), "cols": cols,
                             "flux": float(lc["flux_perfect"].iloc[k]), "err": float(lc["fluxerr"].iloc[k]), "noisy": float(lc["flux"].iloc[k])})
            none = lambda x: x is None or x != x  # noqa: E731
            t0, z = res["t0"].iloc[i], res["z"].iloc[i]
            objs.append({"t0": None if none(t0) else float(lat.t_back(t0)), "z": None if none(z) else float(z), "rows": rows})
        if self.pipe.random:
            joined = GraphState.from_list(states)
            for o, obj in zip(self.cfg["pipe"]["objs"], self.pipe.objs):
                if o["m"] in ("sed", "bstatic"):
                    o["p"]["sel"] = [int(x) for x in np.atleast_1d(joined[obj.node_string]["selected_idx"])]
                elif o["m"] == "rand":
                    names = list(obj.object_map)
                    o["p"]["sel"] = [names.index(str(x)) + 1 for x in np.atleast_1d(joined[obj.node_string]["selected_object"])]
        return {"r": "sim", "objs": objs, "agree": agree}

    def do_free(self, op):
        model, lat = self.pipe.model, self.pipe.lat
        self.restart()
        state = model.sample_parameters(num_samples=self.cfg["pipe"]["n"])
        kw = {}
        for key, name in (("lo", "rest_frame_phase_min"), ("hi", "rest_frame_phase_max"), ("step", "rest_frame_phase_step")):
            vals = [x * lat.ts for x in op[key]]
            kw[name] = vals[0] if len(set(vals)) == 1 and self.style % 2 else np.array(vals)
            if self.style % 3 == 0 and all(v == int(v) for v in vals):
                kw[name] = int(vals[0]) if np.isscalar(kw[name]) else kw[name].astype(int)
        group = self.groups[op["group"] - 1]
        res = compute_noise_free_lightcurves(model, state, group, **kw)
        objs = []
        for i in range(len(res)):
            lc = res["lightcurve"].iloc[i]
            if lc is None or not hasattr(lc, "columns"):
                lc = res["lightcurve"].nest.to_flat().iloc[:0]
            if set(lc.columns) != {"times", "rest_phase"} | set(group.filters):
                return {"r": f"columns {list(lc.columns)}"}
            objs.append({"ph": [float(x) / lat.ts for x in lc["rest_phase"]], "t": [float(lat.t_back(x)) for x in lc["times"]],
                         "flux": {f.split("_")[-1]: [float(x) for x in lc[f]] for f in group.filters}})
        return {"r": "free", "objs": objs}

    def obs(self):
        return {"n": [len(s.obj) for s in self.surveys]}


def close(a, b, scale=1.0):
    return abs(a - b) <= 1e-9 * (scale + abs(b))


def compare(ctx, op, out, got, aspects, zs):
    """None, "skip", or what differs."""
    if out["r"] == "sim":
        want = [[dict(r, var=noise.value(r["err"])) for r in aslist(o["rows"])] for o in out["objs"]]
        if any(r["var"] < 0 for o in want for r in o):
            return "skip"  # the model is negative enough to have a negative variance
    if out["r"] != got["r"]:
        return f"{op['k']} gives {got['r']} {got.get('text', '')}, not {out['r']}"
    if out["r"] == "free":
        for i, (w, g) in enumerate(zip(aslist(out["objs"]), got["objs"])):
            if [float(x) for x in aslist(w["ph"])] != g["ph"] or not all(close(a, b) for a, b in zip(g["t"], aslist(w["t"]))) or len(g["t"]) != len(aslist(w["t"])):
                return f"noise free times of object {i}: {g['t']} (phases {g['ph']}), not {w['t']} (phases {w['ph']})"
            for f, x in w["flux"].items():
                ref = [fl(v) for v in aslist(x)]
                top = 1 + max(map(abs, ref), default=0)
                if len(ref) != len(g["flux"].get(f, ())) or not all(close(a, b, top) for a, b in zip(g["flux"][f], ref)):
                    return f"noise free fluxes of object {i} in {f}: {g['flux'].get(f)}, not {ref}"
        return None if len(got["objs"]) == len(aslist(out["objs"])) else "number of objects"
    if out["r"] != "sim":
        return None
    if got["agree"] != "ok" and ("fluxes" not in got["agree"] or "flux" in aspects):
        return got["agree"]
    tag = aslist(op["cols"]).index("tag") if "tag" in aslist(op["cols"]) else None
    for i, (w, g) in enumerate(zip(want, got["objs"])):
        o = out["objs"][i]
        t0, z = aslist(o["t0"]), aslist(o["z"])
        if g["t0"] != (float(t0[0]) if t0 else None):
            return f"t0 of object {i} is {g['t0']}, not {t0}"
        if (g["z"] is None) != (not z) or (z and not close(g["z"], (z[0][0] - z[0][1]) / z[0][1])):
            return f"z of object {i} is {g['z']}, not {z}"
        if "rows" in aspects:
            a = sorted((r["survey"], float(r["t"]), r["f"], [aslist(c) for c in aslist(r["cols"])]) for r in w)
            b = sorted((r["survey"], r["t"], r["f"], r["cols"]) for r in g["rows"])
            if a != b:
                return f"observations (survey, time, filter, columns) of object {i}: {b}, not {a}"
        if "flux" in aspects:
            if len(w) != len(g["rows"]):
                return f"{len(g['rows'])} observations of object {i}, not {len(w)}"
            key = lambda r: (r["survey"], r["t"], r["f"], r["cols"][tag] if tag is not None else 0)  # noqa: E731
            w = sorted(w, key=lambda r: key(r) + (r["var"],))
            rows = sorted(g["rows"], key=lambda r: key(r) + (r["err"],))
            for a, b in zip(w, rows):
                where = f"object {i}, survey {a['survey']}, time {a['t']}, filter {a['f']}"
                if not close(b["flux"], fl(a["flux"]), 1 + max(abs(fl(x["flux"])) for x in w)):
                    return f"flux at {where}: {b['flux']}, not {fl(a['flux'])}"
                if abs(b["err"] ** 2 - a["var"]) > 1e-8 * (a["var"] + abs(b["flux"])) + 1e-12:
                    return f"flux error at {where}: {b['err']}, not {math.sqrt(a['var'])}"
                if b["err"] < 1e-9:
                    if abs(b["noisy"] - b["flux"]) > 1e-8:
                        return f"noise {b['noisy'] - b['flux']} at {where} with a zero error"
                else:
                    d = (b["noisy"] - b["flux"]) / b["err"]
                    if abs(d) > 7:
                        return f"noise of {d} standard deviations at {where}"
                    if d == 0:
                        return f"no noise at {where}"
                    zs.append(d)
    return None


def replay(ctx, scripts, logs, real, aspects):
    zs, skipped = [], 0
    for n, (script, log, (style, obs0, outs)) in enumerate(zip(scripts, logs, real)):
        if log is None:
            continue
        if aslist(log[0]["obs"]["n"]) != obs0["n"]:
            ctx.violation(f"tables of {obs0['n']} rows", {"cfg": script["cfg"], "style": style})
            continue
        for op, e, (got, gobs) in zip(script["ops"], log[1:], outs):
            ctx.steps += 1
            bad = compare(ctx, op, e["out"], got, aspects, zs)
            if bad == "skip":
                skipped += 1
                continue
            if bad is None and aslist(e["obs"]["n"]) != gobs["n"]:
                bad = f"tables have {gobs['n']} rows, not {e['obs']['n']}"
            if bad:
                ctx.violation(bad, {"case": n, "style": style, "op": op, "cfg": script["cfg"], "ops": script["ops"]})
                break
        ctx.traces += 1
        if ctx.too_many():
            return
    if "flux" in aspects and len(zs) > 2000:
        # The noise is normal with the reported error: mean and variance of all standardized draws
        m = sum(zs) / len(zs)
        v = sum(z * z for z in zs) / len(zs)
        if abs(m) > 6 / math.sqrt(len(zs)) or abs(v - 1) > 6 * math.sqrt(2 / len(zs)):
            ctx.violation(f"the noise in units of its error has mean {m} and mean square {v} over {len(zs)} draws", {})
        if len(set(zs)) < 0.99 * len(zs):
            ctx.violation("draws of the noise repeat within one simulation", {"draws": len(zs), "different": len(set(zs))})
    ctx.parts.append({"noise draws": len(zs), "skipped simulations (negative variance)": skipped})


def play(script, style):
    w = World(script["cfg"], style)
    obs0 = w.obs()
    return (style, obs0, [(w.step(op), w.obs()) for op in script["ops"]])


def exhaustive(ctx, depth, aspects):
    logs = [log for log in ctx.explore("Simulate", depth)]
    scripts = []
    for log in logs:
        c = log[0]["cfg"]
        c["mask"] = {k: list(v) for k, v in c["mask"].items()}
        c["names"], c["place"] = list(c["names"]), list(c["place"])
        for s in c["surveys"]:
            s["nz"] = dict(s["nz"], col=s["nz"]["col"] or {}, sv=s["nz"]["sv"] or {})
        scripts.append({"cfg": c, "ops": [e["op"] for e in log[1:]]})
    # The models' own selections (style 5 of 11) are for the random histories
    replay(ctx, scripts, logs, [play(s, n + n // 10 + 1) for n, s in enumerate(scripts)], aspects)


# ---------------------------------------------------------------- random scenarios
def scenario(rng, style, kinds, tops):
    gen = pipeline.Gen(rng, kinds, tops, 0)
    while True:
        pipe = gen.config()
        objs = pipe["objs"]
        noz = any(o["z"] and not o["t0"] for o in objs if o["m"] not in ("add", "rand", "bpoly", "bstatic"))
        if not noz:
            break
    n, top = pipe["n"], objs[0]
    if style % 11 == 5:
        effects = []
    else:
        effects = [gen.effect(objs)["e"] for _ in range(rng.choice([0, 0, 1, 2]))]
    for e in effects:
        if rng.random() < 0.8:
            e["v"] = [[abs(v[0]), v[1]] for v in e["v"]]
            e["c"], e["d"] = abs(e["c"]), abs(e["d"])
    t0 = top["t0"]
    if top["m"] in ("add", "rand"):
        t0 = [12 * rng.randint(0, 4) for _ in range(n)] if rng.random() < 0.7 else []
    names = gen.fs + ["y"]
    count = 1 if rng.random() < 0.4 or (top["m"] in ("bpoly", "bstatic") and rng.random() < 0.9) else rng.choice([2, 2, 3])
    surveys, npl = [], rng.choice([1, 2, 4])
    for j in range(count):
        known = list(range(1, len(gen.fs) + 1))
        nz = noise.config(rng, ("fake", "fake", "opsim", "ztf"), known + ([len(names)] if rng.random() < 0.06 else []), wrong=0)
        if nz["kind"] == "fake":
            # a table that can be made
            nz["sv"].setdefault("sky", {"t": "num", "v": [[0, [rng.randint(0, 9), 1]]]})
            if "psf_footprint" not in nz["col"]:
                nz["sv"].setdefault("psf_footprint", {"t": "num", "v": [[0, [rng.randint(1, 9), 1]]]})
            if rng.random() < 0.15:
                nz["sv"]["const_flux_error"] = noise.per_filter(rng, sorted(set(nz["filter"])), lambda: noise.fr(rng, 0, 5), known)
        if nz["kind"] == "ztf":
            nz["col"]["fwhm"] = [x if x[1] else [1, 1] for x in nz["col"]["fwhm"]]
        nz["time"] = [rng.choice([12 * rng.randint(0, 5)] * 4 + [12]) for _ in range(nz["n"])]
        nz["pos"] = [rng.randrange(npl) for _ in range(nz["n"])]
        nz.pop("ch"), nz.pop("ma")
        extra = {"tag": list(range(nz["n"]))}
        for name in ("a", "b"):
            if rng.random() < 0.6:
                extra[name] = [rng.randint(0, 99) for _ in range(nz["n"])]
                if rng.random() < 0.3:
                    extra["raw_" + name] = extra[name]
        bands = {f: pipe["bands"][f] if rng.random() < 0.4 else gen.band() for f in gen.fs}
        surveys.append({"nz": nz, "bands": bands, "all": rng.random() < 0.25, "extra": extra})
    mask = {"lo": [], "hi": []}
    if rng.random() < 0.4:
        mask = {"lo": [rng.choice([0, 12, 13, 24]) for _ in range(n)], "hi": [rng.choice([24, 36, 35, 60]) for _ in range(n)]}
    cfg = {"mask": mask, "pipe": pipe, "effects": effects, "names": names, "place": [rng.randrange(npl) for _ in range(n)], "t0": t0, "surveys": surveys}
    ops = []
    alone = style % 11 == 5
    for _ in range(1 if alone else rng.choice([1, 2, 3])):
        r = rng.random()
        if r < 0.2 and any(s["nz"]["n"] > 1 for s in surveys) and not any(o["k"] == "keep" for o in ops):
            j = rng.choice([j for j, s in enumerate(surveys) if s["nz"]["n"] > 1])
            m = surveys[j]["nz"]["n"]
            ops.append({"k": "keep", "survey": j + 1, "rows": sorted(rng.sample(range(1, m + 1), rng.randint(1, m)))})
        elif r < 0.35 and t0 and not alone and top["m"] not in ("bpoly", "bstatic") and not any(z == [1, 2] for z in top["z"]):
            same = rng.random() < 0.4
            lo = [24 * rng.randint(-3, 1) for _ in range(n)]
            step = [rng.choice([24, 48]) for _ in range(n)]
            hi = [a + rng.choice([0, 24, 48, 50, 95, 96]) for a in lo]
            if same:
                lo, hi, step = [lo[0]] * n, [hi[0]] * n, [step[0]] * n
            ops.append({"k": "free", "group": rng.randint(1, count), "lo": lo, "hi": hi, "step": step})
        else:
            ops.append(sim(rng, n, count))
    if not any(o["k"] == "sim" for o in ops):
        ops.append(sim(rng, n, count))
    return {"cfg": cfg, "ops": ops}


def sim(rng, n, count):
    bad = rng.random()
    cols = [c for c in ("tag", "a", "b", "raw_a", "raw_b") if rng.random() < (0.8 if c == "tag" else 0.4)]
    rng.shuffle(cols)
    win = lambda: [] if rng.random() < 0.45 else [rng.choice([0, 6, 12, 24, 30])]  # noqa: E731
    return {"k": "sim", "num": n if bad > 0.02 else rng.choice([0, -1]), "groups": count if not 0.02 < bad < 0.04 else count + 1, "bad": 0.04 < bad < 0.06,
            "before": win(), "after": win(), "cols": cols, "seed": rng.randrange(10**6), "mask": rng.random() < 0.4}


def random_histories(ctx, count, aspects, kinds=KINDS, tops=tuple(KINDS) + ("add", "rand", "add", "rand", "bpoly", "bstatic"), chunk=400):
    scripts, real = [], []
    for n in range(count):
        script = scenario(ctx.rng, n, kinds, list(tops))
        real.append(play(script, n))
        scripts.append(script)
    logs = ctx.oracle("Simulate", scripts, chunk=chunk)
    replay(ctx, scripts, logs, real, aspects)
    ctx.sample({"model": [o["m"] for o in scripts[0]["cfg"]["pipe"]["objs"]], "surveys": [s["nz"]["kind"] for s in scripts[0]["cfg"]["surveys"]],
                "ops": [o["k"] for o in scripts[0]["ops"]]})
