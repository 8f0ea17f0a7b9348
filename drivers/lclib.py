"""Binds specs/Lclib.tla to the reader of light curve libraries (property P21)."""

import gzip
import logging
import os

from astropy.table import Table
from lightcurvelynx.models.lightcurve_template_model import LightcurveData, MultiLightcurveTemplateModel
from lightcurvelynx.utils.io_utils import read_lclib_data

from vlib.core import aslist

logging.getLogger("lightcurvelynx").setLevel(logging.ERROR)
SUFFIX = [".TEXT", ".dat", ".txt", ".text", ".gz", ".dat.gz", ".TXT", ".GZIP"]
TYPES = ["NON-RECUR", "PERIODIC", "RECUR-PERIODIC", "RECUR-NONPERIODIC"]


def text(line, style):
    """One of the spellings of a line."""
    k = line["k"]
    v = aslist(line.get("v", []))
    pad, tail = ["", "  ", "\t"][style % 3], ["", "  ", " # a comment", "\t#S: 1 2 3"][style % 4]
    gap = ["", " ", "  ", "\t"][style // 3 % 4]
    if k == "skip":
        return ["", "   ", "# START_EVENT: 77", "just some text", "  # END_EVENT: 77", "COMMENT: START_EVENT: 77", "COMMENT:", "----------"][style % 8]
    if k == "doc":
        return pad + "DOCUMENTATION:" + tail
    if k == "docend":
        return pad + "DOCUMENTATION_END:" + tail
    if k == "filters":
        return f"{pad}FILTERS:{gap}{''.join(v)}{tail}"
    if k == "names":
        return f"{pad}{['MODEL_PARNAMES', 'MODEL_PARAMETERS'][style // 2 % 2]}:{gap}{[',', ', ', ' ,'][style // 5 % 3].join(v)}{tail}"
    if k == "par":
        seps = [",", ", ", " , "] + (["  ", "\t", " "] if all(v) else [])
        return f"{pad}PARVAL:{gap}{seps[style // 5 % len(seps)].join(v)}{tail}"
    if k == "key":
        return f"{pad}{line['key']}:{gap}{line['v']}{tail}"
    if k in ("start", "end"):
        return f"{pad}{k.upper()}_EVENT:{gap}{line['id']}{tail}"
    nums = [[f"{x / 1000:.3f}", repr(x / 1000), f"{x / 1000:.9e}"][(style + i) % 3 if style % 5 == 0 else 0] for i, x in enumerate(v)]
    return f"{pad}{line['t']}:{gap}{['  ', ' ', chr(9)][style // 2 % 3].join(nums)}{tail}"


def write(path, lines, end):
    data = end.join(lines) + (end if len(lines) % 2 else "")
    if path.lower().endswith((".gz", ".gzip")):
        with gzip.open(path, "wt", newline="") as f:
            f.write(data)
    else:
        with open(path, "w", newline="") as f:
            f.write(data)


def differs(curve, want):
    if not isinstance(curve, Table):
        return f"a {type(curve).__name__}"
    cols = aslist(want["cols"])
    if curve.colnames != ["type", "time"] + cols:
        return f"columns {curve.colnames} instead of {cols}"
    rows = aslist(want["rows"])
    if len(curve) != len(rows):
        return f"{len(curve)} rows instead of {len(rows)}"
    for i, r in enumerate(rows):
        got = [str(curve["type"][i])] + [float(curve[c][i]) for c in curve.colnames[1:]]
        exp = [r["t"]] + [x / 1000 for x in aslist(r["v"])]
        if got != exp:
            return f"row {i} is {got} instead of {exp}"
    meta = dict(curve.meta)
    meta.pop("DOCUMENTATION_END", None)
    if meta.pop("id", None) != want["id"]:
        return f"id {curve.meta.get('id')} instead of {want['id']}"
    par = {e["key"]: e["v"] for e in aslist(want["par"])}
    if meta.pop("PARVAL", {}) != par:
        return f"parameters {curve.meta.get('PARVAL')} instead of {par}"
    exp = {e["key"]: e["v"] for e in aslist(want["meta"])}
    if meta != exp:
        return f"metadata {meta} instead of {exp}"
    return None


def check(ctx, script, log, style, cut, passbands=None):
    """Read the file that ends after the first `cut` lines."""
    lines = [text(l, style + 7 * i) for i, l in enumerate(script["ops"][:cut])]
    path = os.path.join(ctx.work, "lib" + SUFFIX[style % len(SUFFIX)])
    write(path, lines, ["\n", "\n", "\r\n"][style % 3])
    want = log[cut]["obs"]
    case = {"file": lines[-60:], "suffix": SUFFIX[style % len(SUFFIX)]}
    try:
        got = read_lclib_data([path, __import__("pathlib").Path(path)][style % 2])
    except ValueError as e:
        if not want["err"]:
            ctx.violation(f"a valid file is rejected: {e}", case)
        return
    finally:
        ctx.steps += cut
    if want["err"]:
        ctx.violation("an invalid file is read without an error", case)
        return
    curves = aslist(want["curves"])
    if len(got) != len(curves):
        ctx.violation(f"{len(got)} light curves instead of {len(curves)} complete events", case)
        return
    for i, (g, w) in enumerate(zip(got, curves)):
        bad = differs(g, w)
        if bad:
            ctx.violation(f"event {i} of {len(curves)}: {bad}", case)
            return
    ctx.traces += 1
    times = [[aslist(r["v"])[0] for r in aslist(c["rows"]) if r["t"] == "S"] for c in curves]
    if passbands is not None and curves and all(len(t) > 1 and t == sorted(set(t)) for t in times):
        try:
            model = MultiLightcurveTemplateModel.from_lclib_file(path, passbands, node_label="lib", t0=0.0)
            parts = [LightcurveData.from_lclib_table(g) for g in got]
        except Exception as e:  # noqa: BLE001
            ctx.violation(f"the model of a readable file cannot be made: {type(e).__name__}: {e}", case)
            return
        same = len(model) == len(parts) and all(
            a.lightcurves.keys() == b.lightcurves.keys() and all((a.lightcurves[f] == b.lightcurves[f]).all() for f in a.lightcurves) and a.period == b.period
            for a, b in zip(model.lightcurves, parts))
        if not same:
            ctx.violation("the model does not hold the light curves of the file, in order", case)


def exhaustive(ctx, depth):
    consts = {"MCCols": {1, 2}, "MCIds": {"1", "2"}, "MCKeys": {"NROW"}}
    for n, log in enumerate(ctx.explore("Lclib", depth, consts)):
        log = aslist(log)
        check(ctx, {"ops": [e["op"] for e in log[1:]]}, log, n, len(log) - 1)
        if ctx.too_many():
            return


def simulated(ctx, num, depth):
    consts = {"MCCols": {1, 2}, "MCIds": {"1", "2", "12"}, "MCKeys": {"NROW", "RECUR_CLASS"}}
    for n, log in enumerate(ctx.simulate("Lclib", num, depth, consts)):
        log = aslist(log)
        check(ctx, {"ops": [e["op"] for e in log[1:]]}, log, n, len(log) - 1 if n % 2 else ctx.rng.randint(0, len(log) - 1))
        if ctx.too_many():
            return


# ---------------------------------------------------------------- realistic files
def library(rng):
    fs = rng.sample("ugrizY", rng.choice([1, 2, 3, 6]))
    names = ["TYPE", "OTHER", "tau", "EBV"][: rng.choice([0, 1, 2, 4])]
    ops = []

    def noise():
        while rng.random() < 0.25:
            ops.append({"k": "skip"})

    def key(where):
        k = rng.choice(["NROW", "SURVEY", "MODEL", "ANGLEMATCH_b", "RECUR_CLASS", "NEVENT", "DOCNUM", "DOC", "START", "ENDED", "FILTER", "SN", "PARAMS"])
        v = rng.choice(TYPES) if k == "RECUR_CLASS" else rng.choice(["20", "x " + where, "20 l: 10.5 b: -3", "", str(rng.randint(0, 99))])
        ops.append({"k": "key", "key": k, "v": v})

    def par():
        n = len(names) if rng.random() < 0.97 else rng.randint(0, 5)
        ops.append({"k": "par", "v": [rng.choice(["1", "2.5", "-3e-4", "name"]) for _ in range(n)]})

    def row():
        n = len(fs) + 1 if rng.random() < 0.995 else rng.randint(1, 8)
        ops.append({"k": "row", "t": rng.choice("SSSST"), "v": [rng.randint(-2000, 60000000)] + [rng.randint(10000, 30000) for _ in range(n - 1)]})

    if rng.random() < 0.5:
        ops.append({"k": "doc"})
        for _ in range(rng.randint(0, 6)):
            rng.choice([noise, lambda: key("doc"), lambda: ops.append({"k": "start", "id": "5"}), lambda: ops.append({"k": "end", "id": "5"}),
                        row, lambda: ops.append({"k": "filters", "v": ["z"]})])()
        ops.append({"k": "docend"})
    header = [lambda: ops.append({"k": "filters", "v": fs}) if rng.random() < 0.98 else None]
    if names or rng.random() < 0.3:
        header.append(lambda: ops.append({"k": "names", "v": names}) if names else None)
    header += [lambda: key("head")] * rng.randint(0, 3)
    rng.shuffle(header)
    for h in header:
        noise()
        h()
    if names and rng.random() < 0.15:
        par()
    sort = rng.random() < 0.6
    for e in range(rng.choice([0, 1, 2, 3, 5])):
        ident = str(e) if rng.random() < 0.7 else f"{rng.randint(1, 999)}"
        noise()
        if rng.random() < 0.1:
            key("between")
        ops.append({"k": "start", "id": ident})
        body = [row] * rng.choice([0, 1, 2, 3, 6]) + [lambda: key("event")] * rng.choice([0, 0, 1, 2])
        if names and rng.random() < 0.7:
            body.append(par)
        if rng.random() < 0.6:
            body.reverse()
        else:
            rng.shuffle(body)
        first = len(ops)
        for b in body:
            noise()
            b()
        if sort:
            rows = [o for o in ops[first:] if o["k"] == "row"]
            for o, t in zip(rows, sorted(o["v"][0] for o in rows)):
                o["v"] = [t] + o["v"][1:]
        if rng.random() < 0.97:
            ops.append({"k": "end", "id": ident if rng.random() < 0.98 else ident + "1"})
        if rng.random() < 0.02:
            ops.append({"k": "end", "id": ident})
    return {"cfg": {"name": "lib"}, "ops": [o for o in ops if o]}


def libraries(ctx, count):
    import numpy as np
    from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup

    group = PassbandGroup([Passband(np.array([[1000.0 * i, 0.5], [1000.0 * i + 200, 0.5], [1000.0 * i + 400, 0.5]]), "X", f, delta_wave=100, trim_quantile=None)
                           for i, f in enumerate("ugrizY", start=3)])
    scripts = [library(ctx.rng) for _ in range(count)]
    consts = {"MCCols": {1}, "MCIds": {"1"}, "MCKeys": {"NROW"}}
    for n, (script, log) in enumerate(zip(scripts, ctx.oracle("Lclib", scripts, consts))):
        log, end = aslist(log), len(script["ops"])
        check(ctx, script, log, n, end, group)
        for _ in range(2):
            check(ctx, script, log, n, ctx.rng.randint(0, end))
        if n < 4:
            ctx.sample(script["ops"][:12])
        if ctx.too_many():
            return
