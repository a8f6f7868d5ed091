"""C15: benchmark run records against spec/RunRecord.tla."""
import copy
import math
import os
import random
import subprocess
import time

import numpy as np
from harness.lib import Violation


def run(ctx):
    k = ctx.pick(1, 10)
    parts = ctx.parallel(*[
        (lambda s=s, m=m, n=n: ctx.tlc("RunRecord", dict(MaxRuns=m), invariants=["Laws", "Emit"], simulate=n * k, depth=60, seed=ctx.seed * 10 + s,
                                       label=f"{m} runs").rows)
        for s, m, n in ((1, 1, 150), (2, 4, 150), (3, 8, 60))
    ] + [lambda: ctx.tlc("RunRecord", dict(MaxRuns=2), invariants=["Laws"], properties=["Independent"], simulate=40, depth=30, seed=ctx.seed,
                         label="independence of runs").rows])
    rows = [r for p in parts for r in p]

    from bmi.benchmark.result import RunResult, run_estimator
    from bmi.estimators.external.external_estimator import ExternalEstimator
    from bmi.interface import EstimateResult, IMutualInformationPointEstimator
    from bmi.utils import save_sample

    r = np.random.default_rng(ctx.seed)
    files, data = {}, {}
    for name, (n, dx, dy) in {"small": (5, 1, 2), "one row": (1, 2, 1), "wide": (7, 12, 3)}.items():
        files[name] = os.path.join(ctx.scratch, name.replace(" ", "-") + ".csv")
        data[name] = (r.integers(-50, 50, size=(n, dx)) / 8.0, r.integers(-50, 50, size=(n, dy)) / 8.0)
        save_sample(files[name], *data[name])

    values = {"a": {1: 5, 2: [1, {"deep": 2}]}, "b": {1: "text", 2: None}, "error": {1: "not an error", 2: 0.5}}

    def concrete(d):
        return {key: copy.deepcopy(values[key][v]) for key, v in d.items() if v}

    class Proc(Exception):
        def __init__(self, message, output):
            super().__init__(message)
            self.output = output

    def failure(name):
        return {
            "value error": ValueError("some – text: {1}"),
            "key error": KeyError("missing"),
            "empty message": Exception(),
            "assertion": AssertionError("wrong shape"),
            "memory": MemoryError("too much"),
            "subprocess": subprocess.CalledProcessError(3, ["cmd"], output=b"went wrong\n"),
            "output number": Proc("number", 17),
            "output none": Proc("none", None),
        }.get(name)

    class Log:
        def __init__(self):
            self.calls = []

    def make(kind, o, reported, log):
        """An estimator behaving as scripted."""

        def act(args):
            log.calls.append(args)
            log.t0 = time.perf_counter()
            time.sleep(0.002)
            if o["kind"] == "raise late":
                log.calls[-1] = args
                raise failure(o["err"])
            if o["kind"] == "raise":
                if o["err"] == "not an answer":
                    return None
                raise failure(o["err"])
            return float(o["mi"])

        def result(v):
            if v is None:
                return None
            kw = {} if o["time"] == "none" else dict(time_in_seconds=float(o["time"]))
            return EstimateResult(mi_estimate=v, additional_information=reported, **kw)

        class Plain(IMutualInformationPointEstimator):
            def estimate(self, x, y):
                return act((np.array(x), np.array(y)))

            def parameters(self):
                return None

        class Full(Plain):
            def estimate(self, x, y):
                raise RuntimeError("run_estimator uses estimate_with_info")

            def estimate_with_info(self, x, y):
                return result(act((np.array(x), np.array(y))))

        class Ext(ExternalEstimator):
            def parameters(self):
                return None

            def _build_command(self, path, dim_x, dim_y):
                return ["false"]

            def estimate_with_info(self, x, y):
                raise RuntimeError("external estimators get the path")

            def estimate_with_info_from_path(self, path):
                return result(act((path,)))

        return {"memory": Full, "memory plain": Plain, "external": Ext}[kind]()

    rng = random.Random(ctx.seed)
    for row in rows:
        dicts = {name: concrete(d) for name, d in row["dicts"].items()}
        key = " ; ".join(
            f"{u['run']['est']}/{u['run']['file']}/seed {u['run']['seed']} {u['outcome']['kind']} {u['outcome']['mi'] or u['outcome']['err']} time={u['outcome']['time']} "
            f"info={u['dict']}{u['caller']}+{u['reported']}"
            for u in row["runs"]
        )
        done = []  # (record, expected additional information, index)

        def problem(i, clause, **detail):
            """Reported per run, so that one finding does not hide others."""
            u = row["runs"][i]
            shared = "the caller passes a non-empty dictionary" if u["dict"] in ("d1", "d2", "fresh") and any(u["caller"].values()) else "no information passed"
            ctx.report(f"run {i + 1}: {shared}; {key}", clause, detail)

        def go():
            for i, (u, want) in enumerate(zip(row["runs"], row["records"])):
                o, run_ = u["outcome"], u["run"]
                reported = concrete(u["reported"])
                log = Log()
                e = make(run_["est"], o, reported, log)
                kw = {}
                caller = None
                if u["dict"] in dicts:
                    caller = dicts[u["dict"]]
                    before = concrete(row["dicts"][u["dict"]])
                    if caller != before:  # an earlier run changed it, which was reported: start over
                        caller.clear()
                        caller.update(copy.deepcopy(before))
                        for d in done:
                            d[1] = copy.deepcopy(d[0].additional_information)
                elif u["dict"] == "fresh":
                    caller = concrete(u["own"])
                elif u["dict"] == "empty":
                    caller = {}
                if caller is not None:
                    kw["additional_information"] = caller
                    before = copy.deepcopy(caller)
                seed = None if run_["seed"] == "none" else int(run_["seed"])
                if seed is not None or rng.random() < 0.5:
                    kw["seed"] = seed
                path = files[run_["file"]]
                t0 = time.perf_counter()
                try:
                    rec = run_estimator(estimator=e, estimator_id=f"est-{i}", sample_path=path, task_id=f"task {i} – ü", **kw)
                except Exception as exc:
                    problem(i, f"a record is returned whatever the estimator does (raised {type(exc).__name__})", error=str(exc)[:200])
                    continue
                elapsed = time.perf_counter() - t0
                if not isinstance(rec, RunResult):
                    problem(i, "a record is returned", got=type(rec).__name__)
                    continue
                same = lambda a, b: a == b or (a != a and b != b)  # noqa: E731
                if rec.success is not want["success"]:
                    problem(i, "success", got=rec.success)
                if not same(float(rec.mi_estimate), float(want["mi"])):
                    problem(i, "the recorded estimate", got=rec.mi_estimate, want=want["mi"])
                if want["time"] == "measured":
                    if not (0.002 * 0.9 <= rec.time_in_seconds <= elapsed):
                        problem(i, "measured wall-clock time", got=rec.time_in_seconds, elapsed=elapsed)
                elif not same(float(rec.time_in_seconds), float(want["time"])):
                    problem(i, "time reported by the estimator", got=rec.time_in_seconds, want=want["time"])
                if (rec.estimator_id, rec.task_id, rec.n_samples, rec.seed) != (f"est-{i}", f"task {i} – ü", want["rows"], seed):
                    problem(i, "identifiers, seed and number of rows", got=(rec.estimator_id, rec.task_id, rec.n_samples, rec.seed))
                info = dict(rec.additional_information)
                expected = concrete(want["info"])
                if not want["success"]:
                    text, out = info.pop("error", None), info.pop("subprocess_output", None)
                    err = failure(want["error"])
                    if err is not None and text != str(err):
                        problem(i, "the error text is recorded", got=text, want=str(err))
                    if err is None and not isinstance(text, str):
                        problem(i, "the error text is recorded", got=text)
                    if want["output"] and out != str(err.output):
                        problem(i, "the subprocess output is recorded", got=out, want=str(err.output))
                    if not want["output"] and out is not None:
                        problem(i, "no subprocess output is invented", got=out)
                if info != expected:
                    problem(i, "additional information is the union of the caller's and the estimator's", got=info, want=expected)
                # what the estimator was given
                if len(log.calls) != 1:
                    problem(i, "the estimator runs exactly once", got=len(log.calls))
                elif run_["est"] == "external":
                    if str(log.calls[0][0]) != path:
                        problem(i, "external estimators get the file's path", got=str(log.calls[0][0]))
                else:
                    x, y = data[run_["file"]]
                    if not (np.array_equal(log.calls[0][0], x) and np.array_equal(log.calls[0][1], y)):
                        problem(i, "in-memory estimators get exactly the file's data", got=log.calls[0][0][:2])
                if caller is not None and caller != before:
                    problem(i, "the caller's dictionary is modified", before=before, after=caller)
                if reported != concrete(u["reported"]):
                    problem(i, "the estimator's dictionary is modified", after=reported)
                for d in done:
                    if d[0].additional_information != d[1]:
                        problem(d[2], "an earlier record changed because of a later run", got=d[0].additional_information, want=d[1])
                        d[1] = copy.deepcopy(d[0].additional_information)
                done.append([rec, copy.deepcopy(rec.additional_information), i])
            # changing one record
            for j, d in enumerate(done):
                snap = [copy.deepcopy(w[0].additional_information) for w in done]
                shared_before = {n: copy.deepcopy(v) for n, v in dicts.items()}
                d[0].additional_information["scribble"] = j
                for w, s in zip(done, snap):
                    if w is not d and w[0].additional_information != s:
                        problem(w[2], "changing one record changes another", got=w[0].additional_information)
                if dicts != shared_before:
                    problem(d[2], "changing a record changes the caller's dictionary")
                d[0].additional_information.pop("scribble", None)

        ctx.case(key, go, sample=row["records"][-1] if len(row["runs"]) == 1 else None)
    return ctx.finish(
        "model_checking",
        ["estimator behaviours, dictionaries and files are those of the specification; exceptions that are not Exception (interrupts) pass through",
         "measured time is bounded by the duration of the whole call"],
        "distinct history of runs generated by TLC",
    )
