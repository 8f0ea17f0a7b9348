"""Shared machinery of the checks: running TLC, collecting behaviours, evidence and verdicts.

A check is a module in drivers/ with a function run(ctx).  It obtains behaviours from TLC
(exhaustive exploration, simulation, or execution of given scripts), drives the real code
with them, or records traces of the real code and lets TLC accept or reject them.
"""

import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
OUT = os.path.join(VERIF, "out")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MARK = "@@"


class CheckError(Exception):
    """The machinery (not the code under test) failed."""


class Ctx:
    """The state of one run of one check."""

    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.quick = tier != "thorough"
        self.rng = random.Random(seed * 1000003 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.parts = []
        self.assumptions = []
        self.exhaustive_parts = []
        self.violations = []
        self.known_hits = []
        self.known = load_known(pid)
        self.work = os.path.join(OUT, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.nrun = 0

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, constants=None, invariants=(), properties=(), extra=(), env=None, simulate=None,
            depth=None, workers=None, timeout=800, spec=None, view=None, constraint=None, deadlock=False):
        """Run TLC on specs/<module>.tla with a generated configuration. Returns the emitted JSON values."""
        self.nrun += 1
        tag = f"{module}_{self.nrun}"
        cfg = os.path.join(self.work, tag + ".cfg")
        with open(cfg, "w") as f:
            f.write(f"SPECIFICATION {spec or 'Spec'}\n")
            for name, val in (constants or {}).items():
                f.write(f"CONSTANT {name} = {tla_value(val)}\n")
            for inv in invariants:
                f.write(f"INVARIANT {inv}\n")
            for prop in properties:
                f.write(f"PROPERTY {prop}\n")
            if view:
                f.write(f"VIEW {view}\n")
            if constraint:
                f.write(f"CONSTRAINT {constraint}\n")
            f.write(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}\n")
        meta = os.path.join(self.work, tag + ".meta")
        cmd = ["java", "-Xmx6g", "-Xss16m", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={self.work}", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", meta, "-config", cfg, "-workers", str(workers or 8)]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(self.seed)]
        cmd += list(extra) + [module + ".tla"]
        full_env = dict(os.environ)
        full_env.pop("JAVA_TOOL_OPTIONS", None)
        full_env.update(env or {})
        log = os.path.join(self.work, tag + ".log")
        with open(log, "w") as f:
            try:
                rc = subprocess.run(cmd, cwd=SPECS, env=full_env, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise CheckError(f"TLC timed out on {module}; see {log}")
        shutil.rmtree(meta, ignore_errors=True)
        emitted = []
        with open(log) as f:
            text = f.read()
        gen = dist = None
        for line in text.splitlines():
            if line.startswith('"' + MARK):
                emitted.append(json.loads(json.loads(line)[len(MARK):]))
            m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", line)
            if m:
                gen, dist = (int(x.replace(",", "")) for x in m.groups())
            m = re.match(r"The number of states generated: ([\d,]+)", line)
            if m:
                gen = dist = int(m.group(1).replace(",", ""))
        if rc != 0 or (gen is None):
            tail = "\n".join(l for l in text.splitlines() if not l.startswith('"' + MARK)
                             and not l.startswith(("Parsing file", "Semantic processing", "TLC2 Version", "Running breadth")))[:1500]
            over = "Overflow when computing " if "Overflow when computing" in text else ""
            raise CheckError(f"TLC failed (rc={rc}) on {module}; {over}see {log}\n{tail}")
        self.states += dist
        self.transitions += gen
        self.parts.append({"tlc": module, "constants": {k: str(v) for k, v in (constants or {}).items()},
                           "mode": "simulate" if simulate else "exhaustive", "states": dist, "generated": gen,
                           "emitted": len(emitted), "invariants": list(invariants) + list(properties)})
        return emitted

    def explore(self, name, depth, constants=None, **kw):
        """Exhaustive exploration of MC_<name> to the given depth; returns every behaviour."""
        return self.tlc("MC_" + name, dict(constants or {}, Depth=depth), invariants=("Inv", "Emit"), properties=("Act",), **kw)

    def simulate(self, name, num, depth, constants=None, **kw):
        """Random behaviours of MC_<name>."""
        return self.tlc("MC_" + name, dict(constants or {}, Depth=depth), invariants=("Inv", "Emit"), properties=("Act",),
                        simulate=num, depth=depth + 2, **kw)

    def oracle(self, name, scripts, constants=None, chunk=4000, observed=False, **kw):
        """Execute scripts (list of {"cfg":..., "ops":[...]}) by the specification. Returns a log per script,
        or None for a script whose exact values do not fit TLC's 32-bit integers (at most one in 50).
        observed: the scripts contain results of the code, which may be nonsense if the code is wrong."""
        result = []
        for lo in range(0, len(scripts), chunk):
            result += self._oracle(name, scripts[lo:lo + chunk], constants, kw, observed)
        if not self.violations and sum(x is None for x in result) * 50 > max(len(scripts), 50):
            raise CheckError(f"oracle {name}: the values of too many scripts overflow")
        return result

    def _oracle(self, name, part, constants, kw, observed=False):
        path = os.path.join(self.work, f"scripts_{name}_{self.nrun}.json")
        with open(path, "w") as f:
            json.dump(part, f)
        try:
            out = self.tlc("OR_" + name, constants, invariants=("Inv", "Emit"), properties=("Act",), env={"SCRIPTS": path}, **kw)
        except CheckError as e:
            if "Overflow when computing" not in str(e):
                if observed and len(part) == 1:
                    # The specification cannot even interpret what the code returned
                    self.violation(f"a result of the code is outside of the domain of {name}.tla", {"script": part[0], "tlc": str(e)[-600:]})
                    return [None]
                if not observed:
                    raise
                if self.violations:
                    return [None] * len(part)
            if len(part) == 1:
                return [None]
            half = len(part) // 2
            return self._oracle(name, part[:half], constants, kw, observed) + self._oracle(name, part[half:], constants, kw, observed)
        logs = {int(e["t"]): e["log"] for e in out}
        if len(logs) != len(part):
            raise CheckError(f"oracle {name}: {len(logs)} logs for {len(part)} scripts")
        return [aslist(logs[i + 1]) for i in range(len(part))]

    def accept(self, name, traces, constants=None, chunk=4000, **kw):
        """Let the specification accept or reject recorded traces (list of {"cfg":..., "ev":[...]}).
        Returns a list with None (accepted) or {"i": index of the first rejected event, "clause": ...}."""
        result = []
        for lo in range(0, len(traces), chunk):
            part = traces[lo:lo + chunk]
            path = os.path.join(self.work, f"traces_{name}_{self.nrun}.json")
            with open(path, "w") as f:
                json.dump(part, f)
            out = self.tlc("TR_" + name, constants, invariants=("Inv", "Emit"), env={"TRACES": path}, **kw)
            got = {int(e["t"]): e for e in out}
            if len(got) != len(part):
                raise CheckError(f"trace validation {name}: {len(got)} verdicts for {len(part)} traces")
            for i in range(len(part)):
                e = got[i + 1]
                result.append(None if e["clause"] == "ok" else e)
            self.traces += len(part)
        return result

    # ---------------------------------------------------------------- verdicts
    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)

    def violation(self, clause, case):
        """Report a violation (or a listed known finding)."""
        for k in self.known:
            if k["match"] in clause:
                if k["what"] not in self.known_hits:
                    self.known_hits.append(k["what"])
                return
        self.violations.append({"clause": clause, "case": case})

    def too_many(self):
        return len(self.violations) >= 20

    def finish(self):
        evidence = {
            "property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces, "implementation_steps_compared": self.steps,
                         "samples": self.samples, "parts": self.parts},
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
        for what in self.known_hits:
            print(f"KNOWN-FINDING: property={self.pid} {what}")
        if self.violations:
            path = os.path.join(OUT, "replay", self.pid + ".json")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                json.dump(self.violations, f, indent=1, default=str)
            for v in self.violations[:3]:
                print("  clause:", v["clause"])
                print("  case:", json.dumps(v["case"], default=str)[:700])
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        if self.steps == 0:
            print("CHECK ERROR: nothing was compared with the code")
            return 2
        print(f"OK property={self.pid} states={self.states} traces={self.traces} steps={self.steps} wall={time.time() - self.t0:.1f}s")
        shutil.rmtree(self.work, ignore_errors=True)
        return 0


def aslist(x):
    """ToJson writes an empty sequence as [] but an empty function as {}; normalise."""
    if x == {}:
        return []
    return x


def tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla_value(x) for x in sorted(v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla_value(x) for x in v) + ">>"
    raise CheckError(f"no TLA+ value for {v!r}")


def load_known(pid):
    """Known findings: lines '<status>: property=<id> ...'.  Only 'known:' entries suppress anything:
    known: property=<id> match=<clause text> | <what fails>"""
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) match=(.*?) \| (.*)", line.strip())
                if m and m.group(1) == pid:
                    known.append({"match": m.group(2), "what": m.group(3)})
    return known


def outcome(fn, *classes):
    """Run fn; return ("ok", value) or ("err", exception class name)."""
    try:
        return ("ok", fn())
    except Exception as e:  # noqa: BLE001
        return ("err", type(e).__name__, str(e)[:200])


def main(argv):
    import importlib

    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(pid, tier, seed)
    try:
        mod = importlib.import_module("drivers." + pid.lower())
        mod.run(ctx)
    except CheckError as e:
        print("CHECK ERROR:", e)
        if not ctx.violations:
            return 2
    except Exception as e:  # noqa: BLE001
        traceback.print_exc()
        frames = traceback.extract_tb(e.__traceback__)
        if isinstance(e, (OSError, MemoryError, ImportError)) and not any("/src/lightcurvelynx/" in fr.filename for fr in frames):
            return 2
        # The code under test failed on a call that the driver expects to succeed, or returned something
        # that the driver cannot even project to the state of the specification.
        ctx.violation(f"unexpected {type(e).__name__}: {e}", [str(fr) for fr in frames[-6:]])
    return ctx.finish()
