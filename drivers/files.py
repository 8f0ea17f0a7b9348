"""Binds specs/Files.tla to the readers of numeric data files (property P21)."""

import http.server
import logging
import os
import pathlib
import threading
import warnings

import numpy as np
import pooch
from astropy.io.votable import from_table
from astropy.table import Table
from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
from lightcurvelynx.models.spline_model import SplineModel
from lightcurvelynx.models.static_sed_model import StaticSEDModel
from lightcurvelynx.utils.bicubic_interp import BicubicInterpolator
from lightcurvelynx.utils.data_download import download_data_file_if_needed
from lightcurvelynx.utils.io_utils import read_grid_data, read_numpy_data, write_numpy_data

from vlib.core import aslist

logging.getLogger("lightcurvelynx").setLevel(logging.ERROR)
pooch.get_logger().setLevel("ERROR")
NAMES = ["u", "g", "r", "i", "z", "y"]
SCALE = 8.0
ROMAN = ["F062", "F087", "F106", "F129", "F146", "F158", "F184", "F213"]


class Remote:
    """A web server on the loopback interface that serves the remote files."""

    def __init__(self):
        self.files, self.asked = {}, 0
        outer = self

        class Handler(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                outer.asked += 1
                data = outer.files.get(self.path.split("?")[0])
                self.send_response(404 if data is None else 200)
                self.send_header("Content-Length", str(len(data or b"")))
                self.end_headers()
                self.wfile.write(data or b"")

            def log_message(self, *args):
                pass

        os.environ["NO_PROXY"] = os.environ["no_proxy"] = "127.0.0.1"
        self.server = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        threading.Thread(target=self.server.serve_forever, daemon=True).start()
        self.url = f"http://127.0.0.1:{self.server.server_address[1]}"


def table_text(rows, sep, style):
    lines = [sep.join([f"{x / SCALE:.6f}", repr(x / SCALE), f"{x / SCALE:.12g}"][(style + j) % 3 if style % 5 else 2] for j, x in enumerate(r)) for r in rows]
    if style % 2:
        lines.insert(0, "# written by hand")
        lines.insert(len(lines) // 2 + 1, "# half of it")
    return "\n".join(lines) + "\n"


class World:
    """kind: "text" (any reader), "numpy" (arrays only), "xml" (transmission tables), "fits" (grids), "preset" (the six bands of LSST), "roman" (a file with eight bands)"""

    def __init__(self, cfg, kind, style, base, remote):
        self.kind, self.style, self.remote = kind, style, remote
        self.dir = os.path.join(base, "LSST" if kind == "preset" else "Roman" if kind == "roman" else f"survey{style % 7}")
        os.makedirs(self.dir)
        self.unit = ["nm", "A"][style % 2]
        suffixes = {"text": [".txt", ".csv", ".ecsv"], "numpy": [".npy", ".npz"], "xml": [".xml", ".vot"], "fits": [".fits"], "preset": [".dat"], "roman": [".ecsv"]}[kind]
        self.suffix = [suffixes[(style + i) % len(suffixes)] for i in range(len(cfg["remote"]))]
        self.asked0 = remote.asked
        remote.files = {}
        for i, rows in enumerate(aslist(cfg["remote"])):
            if aslist(rows):
                remote.files["/" + NAMES[i]] = table_text(rows, "," if self.suffix[i] in (".csv", ".ecsv") else " ", style).encode()

    def path(self, f):
        return pathlib.Path(self.dir, ("roman_wfi_filters" if self.kind == "roman" else NAMES[f - 1]) + self.suffix[f - 1])

    def arg(self, f):
        return self.path(f) if self.style % 2 else str(self.path(f))

    def do_write(self, op):
        path, rows = self.path(op["f"]), op["rows"]
        data = np.array(rows, dtype=float) / SCALE
        if self.kind == "roman":
            names = ["Wave"] + ROMAN + ["Grism_1stOrder"]
            order = [[0, *range(1, 9), 9], [9, *range(8, 0, -1), 0], [3, 0, 5, 9, 1, 2, 4, 6, 7, 8]][self.style % 3]
            data, sep = np.column_stack([data, data[:, 1] + 1.0]), [",", ", ", " ", "  "][self.style % 4]
            with open(path, "w") as f:
                for line in ["# %ECSV 1.0", "# ---"] * (self.style % 2) + [sep.join(names[i] for i in order)] + [sep.join(repr(float(r[i])) for i in order) for r in data]:
                    print(line, file=f)
        elif self.kind == "xml":
            t = Table([data[:, 0], data[:, 1]], names=["Wavelength", "Transmission"], units=["nm" if self.unit == "nm" else "Angstrom", None])
            with open(path, "wb") as f:
                from_table(t).to_xml(f)
        elif self.kind == "fits":
            Table(data, names=["a", "b", "c"][: data.shape[1]]).write(path, overwrite=True)
        elif self.kind == "numpy" or (self.kind == "text" and self.style % 3 == 0):
            keep = data.copy()
            write_numpy_data(path if self.style % 2 else str(path), data)
            if not np.array_equal(keep, data):
                return {"r": "writing changes the array"}
        else:
            with open(path, "w") as f:
                f.write(table_text(rows, "," if path.suffix in (".csv", ".ecsv") else ["  ", " ", "\t"][self.style // 3 % 3], self.style))
        return {"r": "ok", "tables": []}

    def do_remove(self, op):
        self.path(op["f"]).unlink(missing_ok=True)
        return {"r": "ok", "tables": []}

    def do_fetch(self, op):
        url = f"{self.remote.url}/{NAMES[op['f'] - 1]}" if op["url"] else ["", None][self.style % 2]
        before, here = self.remote.asked, self.path(op["f"]).exists()
        try:
            if self.style % 3 == 2 and self.kind == "text":
                Passband.from_file("S", "f", table_path=self.arg(op["f"]), table_url=url, force_download=op["force"], delta_wave=None, trim_quantile=None)
                good = True
            else:
                good = download_data_file_if_needed(self.arg(op["f"]), url, **({"force_download": op["force"]} if op["force"] or self.style % 2 else {}))
        except ValueError:
            if self.style % 3 == 2 and self.path(op["f"]).exists() and (op["url"] or (here and not op["force"])):
                return {"r": "ok", "tables": []}     # fetched, but it is no transmission table
            return {"r": "ValueError"}
        except Exception:  # noqa: BLE001 (any failure of the request)
            return {"r": "failed"}
        return {"r": "ok" if good else "failed", "tables": []} if self.remote.asked - before <= 1 else {"r": "asked more than once"}

    def do_read(self, op):
        data = read_numpy_data(self.arg(op["f"]))
        if self.style % 2 == 0 and data.ndim == 2 and data.shape[1] == 2 and len(data) > 1 and np.all(np.diff(data[:, 0]) > 0):
            model = StaticSEDModel.from_file(self.arg(op["f"]), node_label="sed")
            state = model.sample_parameters()
            flux = model.evaluate_sed(np.array([0.0, 5.0]), data[:, 0].copy(), state)
            if flux.shape != (2, len(data)) or not np.allclose(flux, data[:, 1], rtol=1e-12):
                return {"r": f"the model made from the file has fluxes {flux.tolist()}"}
        return {"r": "ok", "tables": [(data * SCALE).tolist()]}

    def do_grid(self, op):
        fmt = {"text": "ascii", "fits": "fits"}[self.kind]
        path = self.arg(op["f"])
        if self.kind == "text" and self.path(op["f"]).suffix == ".csv" and self.style % 3 == 0:
            fmt = "ascii"
        kw = {} if fmt == "ascii" and self.style % 2 else {"format": fmt}
        if op["validate"] or self.style % 2:
            kw["validate"] = op["validate"]
        x0, x1, v = read_grid_data(path, **kw)
        if op["validate"] and min(len(x0), len(x1)) > 1:
            model = SplineModel.from_file(path, format=fmt, time_degree=1, wave_degree=1, amplitude=3.0)
            flux = model.evaluate_sed(x0, x1, model.sample_parameters())
            if not np.allclose(flux, 3.0 * v, rtol=1e-9, atol=1e-9):
                return {"r": f"the spline of the grid gives {flux.tolist()} on it"}
        elif min(len(x0), len(x1)) > 2 and fmt == "ascii" and len(set(np.diff(x0))) == len(set(np.diff(x1))) == 1:
            inter = BicubicInterpolator.from_grid_file(path, scale_factor=0.5)
            if not np.allclose(np.asarray(inter(x0, x1)), 0.5 * v, rtol=1e-4, atol=1e-4):
                return {"r": "the interpolator of the grid does not reproduce it"}
        return {"r": "ok", "tables": [(x0 * SCALE).tolist(), (x1 * SCALE).tolist()] + (v * SCALE).tolist()}

    def band_table(self, pb, direct):
        if not np.array_equal(pb._loaded_table, direct):
            return None
        same = Passband(direct, "S", "f", delta_wave=pb.delta_wave, trim_quantile=None)
        return direct if same == pb else None

    def do_band(self, op):
        unit = op["unit"]
        if self.kind == "xml":
            unit = ["A", "nm"][self.style // 2 % 2]     # the file tells the unit
        if unit == "A" and self.style % 2:
            table = Passband.load_transmission_table(self.arg(op["f"]))
        else:
            table = Passband.load_transmission_table(self.arg(op["f"]), wave_units=unit)
        if len(table) > 1 and np.any(table[:, 1] > 0):
            kw = {"delta_wave": None, "trim_quantile": None, "units": unit}
            pb = Passband.from_file("S", "f", table_path=self.arg(op["f"]), **kw)
            if self.band_table(pb, table) is None or pb.full_name != "S_f":
                return {"r": "the passband made from the file differs from its table"}
            if self.kind == "xml" and self.suffix[op["f"] - 1] == ".xml":
                base = pathlib.Path(self.dir)
                full = f"{base.name}.{NAMES[op['f'] - 1]}"
                pb2 = Passband.from_svo(full, table_dir=base.parent, **kw)
                if self.band_table(pb2, table) is None or pb2.filter_name != NAMES[op["f"] - 1] or pb2.survey != base.name:
                    return {"r": "the passband made by from_svo differs from its table"}
            group = PassbandGroup([{"survey": "S", "filter_name": "f", "table_path": self.arg(op["f"])}], **kw)
            if self.band_table(group["S_f"], table) is None:
                return {"r": "the passband in a group made from the file differs from its table"}
        table = table * [SCALE, 2 * SCALE]
        return {"r": "ok", "tables": [table.tolist()]}

    def do_bands(self, op):
        want = [NAMES[i - 1] for i in aslist(op["want"])] or None
        kw = {"filters": want, "delta_wave": None, "trim_quantile": None}
        base = pathlib.Path(self.dir)
        if self.kind == "preset":
            group = PassbandGroup.from_preset("LSST" if self.style % 2 else "lsst", table_dir=base.parent, **kw)
        elif self.style % 3 == 0:
            cwd = os.getcwd()
            os.chdir(base.parent)
            try:
                group = PassbandGroup.from_dir(pathlib.Path(base.name) if self.style % 2 else base.name, units=op["unit"], **kw)
            finally:
                os.chdir(cwd)
        else:
            group = PassbandGroup.from_dir(self.dir, units=op["unit"], **kw)
        names = sorted(group.filters, key=NAMES.index)
        if sorted(pb.full_name for pb in group) != sorted(f"{base.name}_{f}" for f in names):
            return {"r": f"full names {[pb.full_name for pb in group]}"}
        return {"r": "ok", "members": [NAMES.index(f) + 1 for f in names], "tables": [(group[f]._loaded_table * [SCALE, 2 * SCALE]).tolist() for f in names]}

    def do_columns(self, op):
        want = [ROMAN[i - 1] for i in aslist(op["want"])] or None
        if want and self.style % 2:
            want = ["Roman_" + f for f in want]
        group = PassbandGroup.from_preset(["Roman", "roman"][self.style % 2], table_dir=pathlib.Path(self.dir).parent, filters=want, delta_wave=None, trim_quantile=None, **({"units": "micron"} if self.style % 3 == 1 else {}))
        bands = {pb.filter_name: pb for pb in group}
        names = sorted(bands)
        if any(pb.survey != "Roman" or pb.full_name != f"Roman_{f}" for f, pb in bands.items()):
            return {"r": f"full names {[pb.full_name for pb in group]}"}
        return {"r": "ok", "members": [ROMAN.index(f) + 1 for f in names], "tables": [(bands[f]._loaded_table * [SCALE, 2 * SCALE]).tolist() for f in names]}

    def step(self, op):
        self.style += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return getattr(self, "do_" + op["k"])(op)
        except (ValueError, FileNotFoundError) as e:
            return {"r": "FileNotFoundError" if isinstance(e, FileNotFoundError) else "ValueError", "text": str(e)[:200]}

    def obs(self):
        return {"here": [self.path(i + 1).exists() for i in range(len(self.suffix))], "asked": self.remote.asked - self.asked0,
                "names": sorted(os.listdir(self.dir))}


def close(a, b):
    """Nested lists of numbers that agree (values of files written with six or more digits)."""
    if isinstance(a, (list, tuple)) != isinstance(b, (list, tuple)):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return abs(a - b) <= 1e-9 * max(1.0, abs(a))


def replay(ctx, script, log, kind, style, remote):
    base = os.path.join(ctx.work, "dir")
    os.makedirs(base)
    try:
        world = World(script["cfg"], kind, style, base, remote)
        for k, (op, entry) in enumerate(zip(script["ops"], log[1:])):
            got, want = world.step(op), entry["out"]
            ctx.steps += 1
            bad = None
            if want["r"] == "any":
                pass
            elif got["r"] != want["r"]:
                bad = f"{got} instead of {want['r']}"
            elif got["r"] == "ok" and not close(got["tables"], aslist(want["tables"])):
                bad = f"{got['tables']} instead of {want['tables']}"
            elif got["r"] == "ok" and op["k"] in ("bands", "columns") and got["members"] != aslist(want["members"]):
                bad = f"filters {got['members']} instead of {want['members']}"
            obs = world.obs()
            if not bad and (obs["here"] != aslist(entry["obs"]["here"]) or len(obs["names"]) != sum(obs["here"])):
                bad = f"files {obs['names']} instead of {entry['obs']['here']}"
            if not bad and obs["asked"] != entry["obs"]["asked"]:
                bad = f"{obs['asked']} requests instead of {entry['obs']['asked']}"
            if bad:
                ctx.violation(f"{op['k']}: {bad}", {"cfg": script["cfg"], "kind": kind, "suffix": world.suffix, "ops": script["ops"][: k + 1]})
                return
        ctx.traces += 1
        ctx.sample(script)
    finally:
        for root, _, files in os.walk(base, topdown=False):
            for f in files:
                os.unlink(os.path.join(root, f))
            os.rmdir(root)


def exhaustive(ctx, depth, remote):
    for kind, tables in ("text", {1, 2, 3, 4, 5, 6}), ("roman", {7, 8}):
        for n, log in enumerate(ctx.explore("Files", depth, {"MCTables": tables, "MCFiles": 1})):
            log = aslist(log)
            replay(ctx, {"cfg": log[0]["cfg"], "ops": [e["op"] for e in log[1:]]}, log, kind, n, remote)
            if ctx.too_many():
                return


# ---------------------------------------------------------------- random directories
def band(rng, cols=2):
    n, w, rows = rng.randint(2, 9), rng.randint(100, 40000), []
    while len(rows) < n:
        rows.append([w] + [8 * rng.choice([0, 1, 1, 2, 5, 40]) for _ in range(cols - 1)])
        step = rng.choice([0, 1, 8, 40, 80, 400])
        if step == 0 and len(rows) > 1 and rows[-1][0] == rows[-2][0]:
            step = 8           # at most two rows with the same wavelength
        w += step
    if rows[0][0] == rows[-1][0]:
        rows[-1][0] += 16
    if all(r[1] == 0 for r in rows):
        for r in rows:
            r[1] = 8
    if rng.random() < 0.08:
        rng.shuffle(rows)
    return rows


def grid(rng):
    x0 = sorted(rng.sample(range(-40, 400), rng.choice([1, 2, 2, 3, 5])))
    x1 = sorted(rng.sample(range(800, 4000), rng.choice([2, 2, 3, 4, 6])))
    if rng.random() < 0.4:      # regular steps
        x0 = [x0[0] + 8 * i for i in range(rng.randint(2, 5))]
        x1 = [x1[0] + 16 * i for i in range(rng.randint(3, 5))]
    whole = rng.random() < 0.3
    rows = [[a, b, 8 * rng.randint(-5, 99) if whole else rng.randint(-99, 999)] for a in x0 for b in x1]
    r = rng.random()
    if r < 0.06:
        rows.pop(rng.randrange(len(rows)))
    elif r < 0.12:
        rng.shuffle(rows)
    elif r < 0.16:
        rows.sort(key=lambda r: (r[1], r[0]))
    elif r < 0.2:
        i, j = rng.randrange(len(rows)), rng.randrange(len(rows))
        rows[i] = list(rows[j])
    elif r < 0.35:              # two rows of one block in the wrong order
        b = rng.choice([0, 0, rng.randrange(len(x0))]) * len(x1)
        i, j = b + rng.randrange(len(x1)), b + rng.randrange(len(x1))
        rows[i], rows[j] = rows[j], rows[i]
    return rows if len(rows) > 1 else rows * 2


def scenario(rng, kind, steps):
    if kind == "roman":
        ops = []
        for _ in range(rng.randint(2, 4)):
            waves = sorted(rng.sample(range(2, 20), rng.randint(2, 8)))
            ops += [{"k": "write", "f": 1, "rows": [[w] + [8 * rng.choice([0, 1, 1, 2, 5]) + 1 for _ in ROMAN] for w in waves]},
                    {"k": "columns", "f": 1, "want": rng.choice([[], rng.sample(range(1, 9), rng.randint(1, 8))])}]
            if rng.random() < 0.2:
                ops.append({"k": "remove", "f": 1})
        return {"cfg": {"remote": [[]]}, "ops": ops}
    n = {"preset": 6}.get(kind, rng.choice([1, 2, 3, 6]))
    make = {"xml": band, "fits": grid, "numpy": lambda r: [[r.randint(-99, 99) for _ in range(c)] for c in [r.randint(1, 4)] for _ in range(r.randint(1, 6))],
            "preset": band, "text": lambda r: r.choice([band, band, grid, lambda q: band(q, q.choice([2, 3]))])(r)}[kind]
    unit = None
    cfg = {"remote": [make(rng) if kind == "text" and rng.random() < 0.5 else [] for _ in range(n)]}
    ops = []
    if kind == "preset":
        ops = [{"k": "write", "f": i, "rows": sorted(band(rng))} for i in range(1, 7)]
        ops = [dict(o, rows=[r for i, r in enumerate(o["rows"]) if i == 0 or r[0] > o["rows"][i - 1][0]]) for o in ops]
        ops = [dict(o, rows=o["rows"] if len(o["rows"]) > 1 and any(r[1] for r in o["rows"]) else [[800, 8], [900, 16]]) for o in ops]
    kinds = {"text": ["write", "write", "remove", "read", "fetch", "grid", "band", "bands"], "numpy": ["write", "remove", "read"],
             "xml": ["write", "remove", "band", "band", "bands"], "fits": ["write", "remove", "grid", "grid"], "preset": ["bands", "bands", "write"]}[kind]
    for _ in range(rng.randint(2, steps)):
        k, f = rng.choice(kinds), rng.randint(1, n)
        if k == "write":
            rows = make(rng)
            if kind == "preset":
                rows = [[100 * (i + 1), r[1] + 8] for i, r in enumerate(rows)]
            ops.append({"k": k, "f": f, "rows": rows})
            if kind in ("text", "fits") and len(rows[0]) == 3 and rng.random() < 0.6:
                ops.append({"k": "grid", "f": f, "validate": rng.random() < 0.7})
        elif k in ("remove", "read"):
            ops.append({"k": k, "f": f})
        elif k == "fetch":
            ops.append({"k": k, "f": f, "force": rng.random() < 0.4, "url": rng.random() < 0.8})
        elif k == "grid":
            ops.append({"k": k, "f": f, "validate": rng.random() < 0.5})
        elif k == "band":
            ops.append({"k": k, "f": f, "unit": rng.choice(["nm", "A", "A"] + (["m"] if kind == "text" else []))})
        else:
            want = rng.sample(range(1, n + 1), rng.randint(1, n)) if rng.random() < 0.5 else []
            ops.append({"k": k, "want": want, "unit": "nm" if kind == "preset" else rng.choice(["nm", "A"])})
    del unit
    return {"cfg": cfg, "ops": ops}


def directories(ctx, count, steps, remote):
    kinds = [ctx.rng.choice(["text", "text", "text", "numpy", "xml", "fits", "preset", "roman"]) for _ in range(count)]
    scripts = [scenario(ctx.rng, k, steps) for k in kinds]
    for n, (kind, script) in enumerate(zip(kinds, scripts)):
        if kind == "xml":       # the unit of a world's files is fixed
            for op in script["ops"]:
                if "unit" in op:
                    op["unit"] = ["nm", "A"][n % 2]
    for n, (kind, script, log) in enumerate(zip(kinds, scripts, ctx.oracle("Files", scripts, {"MCTables": {1}, "MCFiles": 1}))):
        if log is not None:
            replay(ctx, script, aslist(log), kind, n, remote)
        if ctx.too_many():
            return


def run(ctx, depth, count, steps):
    remote = Remote()
    exhaustive(ctx, depth, remote)
    directories(ctx, count, steps, remote)
    remote.server.shutdown()
