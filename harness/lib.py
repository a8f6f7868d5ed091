"""Shared machinery: running TLC, bookkeeping of verdicts, evidence files.

Nothing here knows about the code under test.  Exit status of a check:
  0  property held on everything explored (KNOWN-FINDING lines possible)
  1  violated, with a line `VIOLATION property=<id> replay=<path>`
  3  machinery failure (TLC did not run, specification error, ...)
"""
import faulthandler
import json
import math
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVIDENCE = os.path.join(VERIF, "evidence")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    """The check itself could not be carried out."""


class Hang(Exception):
    """The code under test did not return in (generous) time."""


class Violation(Exception):
    def __init__(self, clause, **detail):
        super().__init__(clause)
        self.clause = clause
        self.detail = detail


def _jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_jsonable(v) for v in x]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, np.generic):
        return _jsonable(x.item())
    if isinstance(x, np.ndarray):
        return _jsonable(x.tolist())
    return repr(x)[:2000]


class TLCResult:
    def __init__(self, out, rows, states, distinct, cmd, wall):
        self.out = out
        self.rows = rows
        self.states = states
        self.distinct = distinct
        self.cmd = cmd
        self.wall = wall


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.tlc_runs = []
        self.counts = {}
        self.violations = []
        self.known_hit = []
        self.known = load_known(prop)
        self.max_report = 5
        self._lock = threading.Lock()

    # ------------------------------------------------------------------ TLC
    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def tlc(
        self,
        module,
        constants=None,
        *,
        spec="Spec",
        init=None,
        next_=None,
        invariants=(),
        properties=(),
        constraint=None,
        view=None,
        postcondition=None,
        deadlock=False,
        simulate=None,
        depth=None,
        seed=None,
        workers=1,
        env=None,
        timeout=800,
        label=None,
        dfs=False,
        heap="4g",
        expect_violation=False,
    ):
        """Runs TLC on spec/<module>.tla; returns the JSON rows printed as "@@...".

        A violated invariant of the *specification* is a machinery error, as the
        specification is fixed: it never depends on the code under test.
        """
        d = tempfile.mkdtemp(prefix=f"tlc-{module}-", dir=self.scratch)
        cfg = os.path.join(d, "MC.cfg")
        lines = []
        if init:
            lines += [f"INIT {init}", f"NEXT {next_}"]
        else:
            lines.append(f"SPECIFICATION {spec}")
        consts = constants or {}
        defs = []
        if consts:
            lines.append("CONSTANTS")
            for k, v in consts.items():
                lines.append(f"  {k} <- mc_{k}")
                defs.append(f"mc_{k} == {tla(v)}")
        with open(os.path.join(d, "MC.tla"), "w") as f:
            body = "\n".join(defs)
            f.write(f"---- MODULE MC ----\nEXTENDS {module}\n{body}\n====\n")
        for i in invariants:
            lines.append(f"INVARIANT {i}")
        for p in properties:
            lines.append(f"PROPERTY {p}")
        if constraint:
            lines.append(f"CONSTRAINT {constraint}")
        if view:
            lines.append(f"VIEW {view}")
        if postcondition:
            lines.append(f"POSTCONDITION {postcondition}")
        lines.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
        with open(cfg, "w") as f:
            f.write("\n".join(lines) + "\n")
        jopts = [f"-Xmx{heap}", "-Xss64m"]
        if dfs:
            jopts.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = ["java", gc, *jopts, f"-DTLA-Library={SPEC}", f"-Djava.io.tmpdir={d}", "-cp", TLA_JAR]
        cmd += ["tlc2.TLC", "-nowarning", "-metadir", os.path.join(d, "meta"), "-config", cfg]
        cmd += ["-workers", str(workers)]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth or 100)]
            cmd += ["-seed", str(seed if seed is not None else self.seed)]
        cmd.append(os.path.join(d, "MC.tla"))
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t = time.time()
        outp = os.path.join(d, "out.txt")
        with open(outp, "w") as f:
            try:
                rc = subprocess.run(
                    cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=d, timeout=timeout
                ).returncode
            except subprocess.TimeoutExpired:
                raise MachineryError(f"TLC timed out on {module} ({label})")
        with open(outp, errors="replace") as f:
            text = f.read()
        rows = []
        other = []
        for line in text.splitlines():
            if line.startswith('"@@'):
                rows.append(json.loads(json.loads(line)[2:]))
            else:
                other.append(line)
        text = "\n".join(other)
        ok = rc == 0
        if expect_violation:
            ok = rc in (10, 11, 12, 13)
        if not ok:
            at = max(0, text.find("Error:"))
            raise MachineryError(f"TLC failed on {module} ({label}) rc={rc}:\n{text[at:at + 1200]}\n...\n{text[-400:]}")
        st = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
        if st:
            gen, dist = (int(v.replace(",", "")) for v in st[-1])
        else:
            m = re.findall(r"([\d,]+) states checked", text) or re.findall(
                r"number of states generated: ([\d,]+)", text
            )
            gen = int(m[-1].replace(",", "")) if m else 0
            dist = 0
        wall = time.time() - t
        with self._lock:
            self.states += dist if dist else gen
            self.transitions += gen
            self.tlc_runs.append(
                dict(
                    module=module,
                    label=label or module,
                    mode="simulate" if simulate else "exhaustive",
                    constants={k: str(v) for k, v in consts.items()},
                    invariants=list(invariants),
                    properties=list(properties),
                    generated=gen,
                    distinct=dist,
                    rows=len(rows),
                    wall_s=round(wall, 2),
                )
            )
        shutil.rmtree(d, ignore_errors=True)
        return TLCResult(text, rows, gen, dist, cmd, wall)

    def parallel(self, *thunks):
        """Runs several TLC invocations at once."""
        with ThreadPoolExecutor(max_workers=min(8, len(thunks))) as ex:
            futs = [ex.submit(t) for t in thunks]
            return [f.result() for f in futs]

    def shard(self, *thunks):
        """Runs thunks in forked processes (call before importing JAX) and merges
        their verdicts and counters into this context."""
        fields = ("violations", "evaluations", "traces", "distinct", "samples", "counts", "known_hit", "states", "transitions", "tlc_runs")
        pids = []
        for i, t in enumerate(thunks):
            path = os.path.join(self.scratch, f"shard-{i}.pkl")
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    for f in fields:
                        v = getattr(self, f)
                        setattr(self, f, type(v)())
                    value = t()
                    with open(path, "wb") as f:
                        pickle.dump((value, {k: getattr(self, k) for k in fields}), f)
                    rc = 0
                except BaseException:  # noqa: B902
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(rc)
            pids.append((pid, path))
        values, failed = [], 0
        for pid, path in pids:
            _, status = os.waitpid(pid, 0)
            if status != 0:
                failed += 1
                continue
            with open(path, "rb") as f:
                value, st = pickle.load(f)
            values.append(value)
            self.violations += st["violations"]
            self.evaluations += st["evaluations"]
            self.traces += st["traces"]
            self.distinct |= st["distinct"]
            self.samples += st["samples"][:2]
            self.states += st["states"]
            self.transitions += st["transitions"]
            self.tlc_runs += st["tlc_runs"]
            self.known_hit += [k for k in st["known_hit"] if k not in self.known_hit]
            for k, v in st["counts"].items():
                self.count(k, v)
        if failed:
            raise MachineryError(f"{failed} of {len(thunks)} worker processes failed")
        return values

    # ----------------------------------------------------- trace validation
    def validate_traces(self, module, traces, constants=None, label=None, timeout=800, chunk=None):
        """Checks recorded traces against spec/<module>.tla.

        `traces` is a list of dicts with key "ev" (list of events), and whatever
        configuration the module reads. The module prints one verdict row per
        trace: {"tid":i, "ok":bool, "at":n, "clause":"..."}.
        """
        if not traces:
            return []
        path = os.path.join(self.scratch, f"traces-{module}-{time.time_ns()}.ndjson")
        with open(path, "w") as f:
            for t in traces:
                f.write(json.dumps(t) + "\n")
        r = self.tlc(
            module,
            constants,
            spec="TraceSpec",
            invariants=["Report"],
            env={"TRACES": path},
            label=label or f"{module} (trace validation)",
            timeout=timeout,
        )
        os.unlink(path)
        verdicts = {v["tid"]: v for v in r.rows if "tid" in v}
        if len(verdicts) != len(traces):
            raise MachineryError(
                f"{module}: {len(verdicts)} verdicts for {len(traces)} traces\n{r.out[-3000:]}"
            )
        self.traces += len(traces)
        return [verdicts[i + 1] for i in range(len(traces))]

    # ------------------------------------------------------------- verdicts
    def case(self, key, fn, *, timeout=180, sample=None, trace=True):
        """Evaluates one case: fn() raises Violation, or any exception of the code
        under test (which is then a violation as the specification gives a result)."""
        self.evaluations += 1
        if trace:
            self.traces += 1
        self.distinct.add(key if isinstance(key, str) else json.dumps(_jsonable(key)))
        if len(self.samples) < 4 or (self.evaluations in (50, 500)):
            self.samples.append({"case": _jsonable(key), **({"data": _jsonable(sample)} if sample is not None else {})})
        try:
            with deadline(timeout):
                fn()
            return True
        except Violation as v:
            self.report(key, v.clause, v.detail, sample)
        except MachineryError:
            raise
        except Hang:
            self.report(key, "no result: the call did not return", {"timeout_s": timeout}, sample)
        except KeyboardInterrupt:
            raise
        except BaseException as e:  # noqa: B902 - also SystemExit of the code under test
            self.report(
                key,
                f"unexpected exception {type(e).__name__}: {str(e)[:300]}",
                {"traceback": traceback.format_exc()[-1200:]},
                sample,
            )
        return False

    def report(self, key, clause, detail=None, sample=None):
        key = key if isinstance(key, str) else json.dumps(_jsonable(key))
        for k in self.known:
            if k["status"] == "open" and re.fullmatch(k["case"], key) and re.search(k.get("clause", ""), clause):
                if k["what"] not in self.known_hit:
                    self.known_hit.append(k["what"])
                return
        self.violations.append(dict(case=key, clause=clause, detail=_jsonable(detail or {}), data=_jsonable(sample)))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    # ---------------------------------------------------------------- final
    def finish(self, level, assumptions, rule, level_note=None, exhaustive=False, extra=None):
        wall = time.time() - self.t0
        cov = dict(
            states=self.states,
            transitions=self.transitions,
            traces_validated_against_impl=self.traces,
            evaluations=self.evaluations,
            distinct_nontrivial=len(self.distinct),
            rule=rule,
            samples=self.samples[:8] or [{"note": "none"}],
            tlc_runs=self.tlc_runs,
            counts=self.counts,
            exhaustive=exhaustive,
        )
        cov.update(extra or {})
        ev = dict(
            property=self.prop,
            tier=self.tier,
            seed=self.seed,
            level=level,
            coverage=cov,
            assumptions=assumptions,
            wall_s=round(wall, 2),
            violations=len(self.violations),
        )
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        for w in self.known_hit:
            print(f"KNOWN-FINDING: property={self.prop} {w}")
        if self.violations:
            os.makedirs(os.path.join(EVIDENCE, "replays"), exist_ok=True)
            rp = os.path.join(EVIDENCE, "replays", f"{self.prop}-{self.tier}-{self.seed}.json")
            with open(rp, "w") as f:
                json.dump(
                    dict(
                        property=self.prop,
                        rerun=f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} python3 {VERIF}/check.py {self.prop}",
                        violations=self.violations[:200],
                    ),
                    f,
                    indent=1,
                )
            for v in self.violations[: self.max_report]:
                print(f"  {v['case'][:300]}\n    clause: {v['clause']}")
                d = json.dumps(v["detail"])
                print(f"    detail: {d[:1500]}")
            print(f"{len(self.violations)} violating case(s)")
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        print(
            f"OK property={self.prop} tier={self.tier} states={self.states} cases={self.evaluations} "
            f"traces={self.traces} wall={wall:.1f}s"
        )
        return 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known(prop):
    path = os.path.join(VERIF, "known-findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#"):
                k = json.loads(line)
                if k["property"] == prop:
                    out.append(k)
    return out


class deadline:
    """SIGALRM-based watchdog (main thread only)."""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        if threading.current_thread() is not threading.main_thread():
            self.active = False
            return
        self.active = True

        def handler(signum, frame):
            raise Hang()

        self.old = signal.signal(signal.SIGALRM, handler)
        signal.alarm(int(self.s))

    def __exit__(self, *a):
        if self.active:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, self.old)
        return False


def tla(v):
    """Python value -> TLA+ literal."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        if v.startswith("=="):  # raw TLA+ text
            return v[2:]
        return '"' + v + '"'
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    raise TypeError(v)


# ------------------------------------------------------------------ comparing
def require(cond, clause, **detail):
    if not cond:
        raise Violation(clause, **detail)


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * abs(b)


def require_close(got, want, clause, rtol=1e-9, atol=1e-9, **detail):
    try:
        g = float(got)
    except Exception:
        raise Violation(clause, got=repr(got)[:300], want=float(want), **detail)
    require(close(g, want, rtol, atol), clause, got=g, want=float(want), **detail)


def require_raises(exc, fn, clause, **detail):
    """fn must raise one of exc."""
    try:
        r = fn()
    except exc:
        return
    except Hang:
        raise
    except Exception as e:
        raise Violation(clause + f" (raised {type(e).__name__} instead)", error=str(e)[:300], **detail)
    raise Violation(clause + " (accepted)", result=repr(r)[:300], **detail)
