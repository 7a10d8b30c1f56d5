"""
Shared machinery of the checks: runs TLC, parses what the specification printed, replays operations on the
real library, validates recorded traces, writes evidence and reports violations.
"""
import contextlib
import hashlib
import io
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
TLA_JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
if os.path.join(REPO, "src") not in sys.path:
    sys.path.insert(0, os.path.join(REPO, "src"))

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


class Hang(BaseException):
    """The code under test did not return in time"""


def _alarm(_sig, _frm):
    raise Hang()


@contextlib.contextmanager
def deadline(seconds):
    """Raises Hang when the block runs for longer than the given time"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class MachineryError(Exception):
    """Something in the framework (not in the code under test) went wrong"""


class TlcResult:
    def __init__(self):
        self.records = []
        self.generated = 0
        self.distinct = 0
        self.wall = 0.0
        self.coverage = {}
        self.output = ""
        self.violation = None


def tlc(module, cfg, env=None, timeout=800, workers=1, simulate=None, depth=None, heap="6g", want_records=True,
        allow_violation=False, extra_files=None, seed=None):
    """Runs TLC on spec/<module>.tla with the given configuration text and returns what it printed"""
    work = tempfile.mkdtemp(prefix="vtlc")
    res = TlcResult()
    try:
        for name in os.listdir(SPEC):
            if name.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, name), work)
        for name, text in (extra_files or {}).items():
            with open(os.path.join(work, name), "w", encoding="utf-8") as fp:
                fp.write(text)
        with open(os.path.join(work, "MC.cfg"), "w", encoding="utf-8") as fp:
            fp.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", f"-Xmx{heap}", "-Xss512m", "-Dfile.encoding=UTF-8",
               f"-Djava.io.tmpdir={work}", "-cp", TLA_JARS, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
               "-metadir", os.path.join(work, "meta"), "-config", "MC.cfg", "-nowarning"]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth or 20), "-seed", str(seed if seed is not None else SEED)]
        cmd += [module + ".tla"]
        full_env = dict(os.environ)
        full_env.update(env or {})
        start = time.time()
        out_path = os.path.join(work, "out.txt")
        with open(out_path, "wb") as out_fp:
            try:
                proc = subprocess.run(cmd, cwd=work, env=full_env, stdout=out_fp, stderr=subprocess.STDOUT, timeout=timeout,
                                      check=False)
            except subprocess.TimeoutExpired as exc:
                raise MachineryError(f"TLC timed out on {module}") from exc
        res.wall = time.time() - start
        other = []
        with open(out_path, encoding="utf-8") as fp:
            for line in fp:
                if line.startswith('"@@'):
                    if want_records:
                        res.records.append(json.loads(json.loads(line)[2:]))
                else:
                    other.append(line)
        res.output = "".join(other)
        m = re.search(r"^(\d+) states generated, (\d+) distinct states found", res.output, re.M)
        if m:
            res.generated, res.distinct = int(m.group(1)), int(m.group(2))
        else:
            m = re.search(r"The number of states generated: (\d+)", res.output)
            if m:
                res.generated = res.distinct = int(m.group(1))
        if "Error:" in res.output or (proc.returncode != 0):
            m = re.search(r"Error: (Invariant \S+ is violated|Action property \S+ is violated|.*)", res.output)
            res.violation = m.group(1) if m else f"TLC exit {proc.returncode}"
            if not allow_violation:
                raise MachineryError(f"TLC on {module}: {res.violation}\n{res.output[-4000:]}")
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


class Check:
    """One run of one property's check"""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = TIER
        self.seed = SEED
        self.start = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.violations = []
        self.counts = {}
        self.cov = {}
        self.assumptions = []
        self.known = load_known(prop)
        self.known_hit = {}
        self.dir = os.path.join(VERIF, "evidence")
        os.makedirs(os.path.join(self.dir, "replay"), exist_ok=True)

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def add_tlc(self, res, name=None):
        self.states += res.distinct
        self.transitions += res.generated
        if name:
            self.cov.setdefault("tlc_runs", {})[name] = {"states": res.distinct, "transitions": res.generated,
                                                         "wall_s": round(res.wall, 2)}

    def sample(self, obj):
        if len(self.samples) < 5:
            self.samples.append(obj)

    def violation(self, key, detail):
        """Reports a violation; key identifies what fails (for the known-findings list)"""
        for entry in self.known:
            if entry["key"] == key:
                self.known_hit[key] = entry["what"]
                return
        self.counts[key] = self.counts.get(key, 0) + 1
        if self.counts[key] > 2 or sum(v is not None for v in self.violations) >= 20:
            self.violations.append(None)
            return
        digest = hashlib.sha1((self.prop + key + json.dumps(detail, sort_keys=True, default=str)).encode()).hexdigest()[:10]
        path = os.path.join(self.dir, "replay", f"{self.prop}-{digest}.json")
        with open(path, "w", encoding="utf-8") as fp:
            json.dump({"property": self.prop, "key": key, "detail": detail}, fp, indent=1, default=str)
        self.violations.append((key, path))
        print(f"VIOLATION property={self.prop} replay={path}")
        print(f"  {key}: {json.dumps(detail, default=str)[:1500]}")
        sys.stdout.flush()

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
               "samples": self.samples or ["(none)"]}
        cov.update(self.cov)
        evidence = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
                    "assumptions": self.assumptions, "wall_s": round(time.time() - self.start, 2),
                    "violations": len(self.violations)}
        with open(os.path.join(self.dir, f"{self.prop}.json"), "w", encoding="utf-8") as fp:
            json.dump(evidence, fp, indent=1, default=str)
        for key, what in sorted(self.known_hit.items()):
            print(f"KNOWN-FINDING: property={self.prop} {what} [{key}]")
        if self.violations:
            return 1
        if self.validated == 0:
            raise MachineryError(f"{self.prop}: nothing was checked")
        print(f"OK property={self.prop} states={self.states} transitions={self.transitions} "
              f"validated={self.validated} wall={evidence['wall_s']}s")
        return 0


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as fp:
        data = json.load(fp)
    return [e for e in data.get("known", []) if e["property"] == prop]


@contextlib.contextmanager
def silenced():
    """Swallows what the library prints"""
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out, err


def run_ops(adapter_cls, cfg, ops, limit=10.0, projected="last"):
    """Runs a list of operations on a fresh adapter; returns [(res, proj)] - 'hang' when the code does not return"""
    out = []
    try:
        with deadline(limit), silenced():
            ad = adapter_cls(cfg)
            try:
                for ix, op in enumerate(ops):
                    try:
                        res = ad.do(op)
                    except Exception as exc:  # pylint: disable=W0703
                        res = "err"
                        ad.last_error = f"{type(exc).__name__}: {exc}"
                    want_proj = projected == "all" or (projected == "last" and ix == len(ops) - 1)
                    out.append([res, ad.proj() if want_proj else []])
            finally:
                close = getattr(ad, "close", None)
                if close:
                    close()
    except Hang:
        out.append(["hang", []])
    except RecursionError:
        out.append(["recursion", []])
    except Exception:  # pylint: disable=W0703
        out.append(["crash:" + traceback.format_exc()[-600:], []])
    return out


def diff(want, got):
    """The lines in which two projections differ"""
    return {"missing": [x for x in want if x not in got][:12], "unexpected": [x for x in got if x not in want][:12],
            "same_lines_other_order": sorted(want) == sorted(got)}


def replay_tests(check, adapter_cls, records, cfg_of=lambda r: r.get("c"), key=lambda op: op.get("op", "?"), prefix=""):
    """
    Specification -> implementation: each record is a behaviour of the specification (h: operations, r: result of the last
    one, p: projected state after it); the real code must do the same.
    """
    n = 0
    for rec in records:
        ops = rec["h"]
        got = run_ops(adapter_cls, cfg_of(rec), ops)
        n += 1
        last = got[-1] if len(got) == len(ops) else ["stopped:" + str(got[-1][0] if got else ""), []]
        if last[0] != rec["r"] or last[1] != rec["p"]:
            check.violation(prefix + "replay:" + key(ops[-1]),
                            {"cfg": cfg_of(rec), "ops": ops, "want_result": rec["r"], "got_result": last[0],
                             "state": diff(rec["p"], last[1])})
            if len(check.violations) > 200:
                break
    check.validated += n
    check.cov["replayed_behaviours"] = check.cov.get("replayed_behaviours", 0) + n
    if records:
        check.sample({"replayed": records[len(records) // 2]["h"]})
    return n


def replay_queries(check, adapter_cls, records, key=lambda op: op.get("op", "?")):
    """Specification -> implementation for questions that change nothing: each record has a history h, questions q and answers qr"""
    n = 0
    for rec in records:
        got = run_ops(adapter_cls, rec.get("c"), rec["h"] + rec["q"], projected="none")
        n += len(rec["q"])
        if len(got) != len(rec["h"]) + len(rec["q"]):
            check.violation("query:stopped", {"ops": rec["h"] + rec["q"], "got": got[-1]})
            continue
        for op, want, (res, _proj) in zip(rec["q"], rec["qr"], got[len(rec["h"]):]):
            if res != want:
                check.violation("query:" + key(op), {"cfg": rec.get("c"), "ops": rec["h"] + [op], "want_result": want, "got_result": res})
        if len(check.violations) > 200:
            break
    check.validated += n
    check.cov["replayed_queries"] = check.cov.get("replayed_queries", 0) + n


def record_traces(adapter_cls, traces, limit=20.0):
    """traces: list of (cfg, generator function(adapter) yielding ops); returns JSON-able recorded traces"""
    out = []
    for cfg, gen in traces:
        steps, op = [], None
        try:
            with deadline(limit), silenced():
                ad = adapter_cls(cfg)
                try:
                    for op in gen(ad):
                        try:
                            res = ad.do(op)
                        except Exception as exc:  # pylint: disable=W0703
                            res = "err"
                            ad.last_error = f"{type(exc).__name__}: {exc}"
                        steps.append({"op": op, "res": res, "proj": ad.proj()})
                finally:
                    close = getattr(ad, "close", None)
                    if close:
                        close()
        except Hang:
            steps.append({"op": op, "res": "hang", "proj": []})
        except RecursionError:
            steps.append({"op": op, "res": "recursion", "proj": []})
        except Exception as exc:  # pylint: disable=W0703
            if op is None:
                raise
            shown = {"op": op, "res": f"crash:{type(exc).__name__}: {exc}"[:200], "proj": []}
            steps = steps + [shown] if not steps or steps[-1]["op"] is not op else steps[:-1] + [shown]
        out.append({"cfg": cfg, "steps": steps})
    return out


def validate_traces(check, module, cfg_text, traces, name=None, prefix="", chunk=4000, key=lambda op: op.get("op", "?")):
    """Implementation -> specification: every recorded trace must be a behaviour of the specification"""
    for lo in range(0, len(traces), chunk):
        part = traces[lo:lo + chunk]
        fd, path = tempfile.mkstemp(suffix=".json", prefix="vtrace")
        try:
            with os.fdopen(fd, "w", encoding="utf-8") as fp:
                json.dump(part, fp)
            res = tlc(module, cfg_text, env={"TRACE": path}, workers=1)
        finally:
            os.unlink(path)
        check.add_tlc(res, name)
        rejects = res.records
        for rec in rejects:
            tr = part[rec["tid"] - 1]
            ops = [s["op"] for s in tr["steps"][:rec["step"]]]
            check.violation(prefix + "trace:" + key(rec["op"]),
                            {"cfg": tr["cfg"], "ops": ops, "want_result": rec["want"]["res"], "got_result": rec["got"]["res"],
                             "state": diff(rec["want"]["proj"], rec["got"]["proj"])})
        if not rejects:
            expected = sum(len(t["steps"]) + 1 for t in part)
            if res.distinct != expected:
                raise MachineryError(f"trace validation incomplete: {res.distinct} of {expected} states")
        check.validated += len(part)
        check.cov["validated_traces"] = check.cov.get("validated_traces", 0) + len(part)
        check.cov["validated_steps"] = check.cov.get("validated_steps", 0) + sum(len(t["steps"]) for t in part)
    if traces:
        check.sample({"trace": [s["op"] for s in traces[0]["steps"]][:12]})


def guard_repo():
    """Remembers what git says about /repo; a check must leave it alone"""
    return None
