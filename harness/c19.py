"""C19: aggregation of benchmark runs against spec/Workflow.tla."""
import importlib.util
import math
import os
import random
import re
import sys
import tempfile
import textwrap
import types

import numpy as np
from harness.lib import require, require_close

FAILED = 1000000
ESTS = ["KSG-5", "CCA", "MINE-10_5"]
UNIT = 8.0


def stub_jinja():
    """pandas only renders through jinja2; the tables themselves do not need it."""
    try:
        import jinja2  # noqa: F401
    except ImportError:
        m = types.ModuleType("jinja2")
        m.__version__ = "3.1.2"

        class Environment:
            def __init__(self, *a, **k):
                pass

            def get_template(self, *a, **k):
                return types.SimpleNamespace(render=lambda **k: "<html/>")

        ms = types.ModuleType("markupsafe")
        ms.escape = str
        sys.modules.setdefault("markupsafe", ms)
        m.Environment = Environment
        m.PackageLoader = lambda *a, **k: None
        sys.modules["jinja2"] = m


def repo():
    return os.environ.get("VERIF_REPO", "/repo")


def load_utils():
    stub_jinja()
    spec = importlib.util.spec_from_file_location("workflow_utils", f"{repo()}/workflows/benchmark/_utils.py")
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def tasks():
    import bmi.benchmark.tasks as T

    return [T.task_bivariate_normal(0.75), T.task_multinormal_2pair(2, 2), T.task_student_dense(1, 2, 3, off_diag=0.25)]


def value(v):
    return float("nan") if v == FAILED else v / UNIT


def frame(r, ts, sizes, rng):
    import pandas as pd

    rows = []
    for x in r["runs"]:
        t = ts[x["t"] - 1]
        rows.append(
            dict(estimator_id=ESTS[x["e"] - 1], task_id=t.id, n_samples=sizes[x["s"] - 1], seed=x["r"], mi_estimate=value(x["v"]), mi_true=t.mutual_information,
                 task_name=t.name, estimator_params={}, time_in_seconds=1.5)
        )
    df = pd.DataFrame(rows)
    if rng.random() < 0.5:
        df = df.set_index(pd.Index(rng.sample(range(100), len(df))))
    return df


def cellname(e, t):
    return f"{ESTS[e]} on task {t + 1}"


def compare(table, want, ts, present, what):
    """Differences between a table and the specified cells."""
    bad = []
    for e in range(len(want)):
        for t in range(len(want[e])):
            c = want[e][t]
            tid = ts[t].id
            got = table.at[tid, ESTS[e]] if (tid in table.index and ESTS[e] in table.columns) else float("nan")
            if c["n"] == 0 or ("good" in c and c["good"] == 0):
                if not (isinstance(got, float) and math.isnan(got)):
                    bad.append((what, cellname(e, t), float(got), "missing"))
                continue
            exp = c["c"] / c["n"] if "c" in c else c["mean"][0] / c["mean"][1] / UNIT
            if not (math.isfinite(got) and abs(got - exp) <= 1e-9 * (1 + abs(exp))):
                bad.append((what, cellname(e, t), float(got), exp))
    return bad


def check_tables(u, r, ts, sizes, df, results_only=False):
    o = r["out"]
    before = df.copy(deep=True)
    kw = {} if r["request"] == -1 else dict(n_samples=sizes[r["request"] - 1])
    wrong_size = []
    nT = len(o["all"][0])
    for converged, a, b in ((False, "all", "xall"), (True, "conv", "xconv")):
        styler = u.create_benchmark_table(df, converged_only=converged, **kw)
        table = styler.data
        bad = compare(table, o[a], ts, None, "mean estimate")
        if bad:
            require(r["ns"] > 1 and not compare(table, o[b], ts, None, ""), "a cell is the mean estimate over seeds of its estimator and task", converged_only=converged, bad=bad[:3])
            wrong_size.append(bad[0])
        for t in {x["t"] for x in r["runs"]}:
            require(ts[t - 1].id in table.index, "a row for every task", task=ts[t - 1].id, rows=list(table.index))
            require_close(float(table.at[ts[t - 1].id, "True MI"]), ts[t - 1].mutual_information, "the true value next to the estimates", 1e-12, 1e-12)
        require(set(table.columns) <= set(ESTS) | {"True MI"} and set(table.index) <= {t.id for t in ts} and table.index.is_unique and table.columns.is_unique,
                "one row per task and one column per estimator", got=(list(table.index), list(table.columns)))
        cells = o[b] if bad else o[a]
        colours(styler, cells, ts, nT)
    styler = u.create_convergence_table(df, **kw)
    bad = compare(styler.data, o["frac"], ts, None, "converged fraction")
    if bad:
        require(r["ns"] > 1 and not compare(styler.data, o["xfrac"], ts, None, ""), "the convergence table holds the fraction of runs above the threshold", bad=bad[:3])
        wrong_size.append(bad[0])
    require(before.equals(df) and list(before.columns) == list(df.columns), "the input table is not changed", columns=list(df.columns))
    require(not wrong_size, "only the requested (by default the largest) sample size enters the tables", bad=wrong_size)


def colours(styler, cells, ts, nT):
    """The benchmark table is shaded by the mean log2(estimate / truth)."""
    import matplotlib as mpl

    try:
        st = styler._compute()
        ctx = st.ctx
    except Exception:
        return  # rendering details are not judged
    cols, rows = list(styler.data.columns), list(styler.data.index)
    cmap = mpl.colormaps["coolwarm"]
    for e in range(len(cells)):
        for t in range(nT):
            c = cells[e][t]
            if c["good"] == 0 or min(c["vs"]) <= 0:
                continue
            err = np.mean([math.log2(v / UNIT / ts[t].mutual_information) for v in c["vs"]])
            if abs(err) > 0.999:
                continue
            key = (rows.index(ts[t].id), cols.index(ESTS[e]))
            style = dict(ctx.get(key, []))
            if "background-color" not in style:
                continue
            got = mpl.colors.to_rgb(style["background-color"])
            # nearby shades are accepted: one step of the 256-colour map
            ok = any(np.allclose(got, cmap((err + d + 1) / 2)[:3], atol=0.012) for d in (-0.01, 0, 0.01))
            require(ok, "the shade of a cell is its mean log-relative error log2(estimate / truth)", cell=cellname(e, t), error=err, got=style["background-color"])


# ------------------------------------------------------------------ the rules
def rules():
    """The Python bodies of the Snakemake rules and the top-level statements."""
    text = open(f"{repo()}/workflows/benchmark/_common_benchmark_rules.smk").read()
    parts = re.split(r"(?m)^rule (\w+):\n", text)
    top, bodies = [parts[0]], {}
    for name, body in zip(parts[1::2], parts[2::2]):
        lines = body.splitlines()
        end = next((i for i, ln in enumerate(lines) if ln and not ln[0].isspace() and not ln.startswith("#")), len(lines))
        top.append("\n".join(lines[end:]))
        m = re.search(r"(?ms)^    run:\n(.*)", "\n".join(lines[:end]) + "\n")
        if m:
            keep = []
            for ln in m[1].splitlines():
                if ln.strip() and not ln.startswith("     "):
                    break
                keep.append(ln)
            bodies[name] = textwrap.dedent("\n".join(keep))
    return "\n".join(top), bodies


class Listing(list):
    def __str__(self):
        return " ".join(map(str, self))


def pipeline(ctx, r, ts, sizes, u, rng):
    top, bodies = rules()
    if not {"results", "sample_task", "apply_estimator", "benchmark_tables"} <= set(bodies):
        ctx.count("rules_not_found")
        return
    script = {(ESTS[x["e"] - 1], ts[x["t"] - 1].id, sizes[x["s"] - 1], x["r"]): value(x["v"]) for x in r["runs"]}
    now = {}

    from bmi.interface import IMutualInformationPointEstimator

    class Scripted(IMutualInformationPointEstimator):
        def __init__(self, name):
            self.name = name

        def estimate(self, x, y):
            k = now["key"]
            now["seen"] = (np.asarray(x), np.asarray(y))
            if math.isnan(script[now["key"]]) and now["key"][3] != 2:
                raise ValueError("scripted failure")
            return script[now["key"]]

        def seen(self):
            k = now["key"]
            x, y = now.pop("seen")
            t = [q for q in ts if q.id == k[1]][0]
            require(np.shape(x) == (k[2], t.dim_x) and np.shape(y) == (k[2], t.dim_y), "the estimator gets the sample of its own task and size", got=(np.shape(x), np.shape(y)), key=k)
            sx, sy = t.sample(k[2], k[3])
            require(np.allclose(x, sx, rtol=1e-5, atol=1e-6) and np.allclose(y, sy, rtol=1e-5, atol=1e-6), "the estimator gets the sample of its own task, size and seed", key=k, got=x[:2], want=sx[:2])

        def parameters(self):
            from bmi.interface import BaseModel

            return BaseModel()

    with tempfile.TemporaryDirectory() as d:
        old = os.getcwd()
        os.chdir(d)
        try:
            ns = dict(TASKS=iter(ts), ESTIMATORS_DICT={n: Scripted(n) for n in ESTS}, N_SAMPLES=sizes, SEEDS=[1, 2, 3])
            real = sys.modules.get("resource")
            sys.modules["resource"] = types.SimpleNamespace(setrlimit=lambda *a: None, RLIMIT_DATA=2, RLIMIT_AS=9)
            sys.modules["_utils"] = u
            try:
                exec(top, ns)
            finally:
                if real is not None:
                    sys.modules["resource"] = real
                else:
                    del sys.modules["resource"]
                del sys.modules["_utils"]
            files = []
            keys = list(script)
            rng.shuffle(keys)
            for k in keys:
                e, t, n, s = k
                now["key"] = k
                w = types.SimpleNamespace(estimator_id=e, task_id=t, n_samples=str(n), seed=str(s))
                sample = f"tasks/{t}/{n}-{s}.csv"
                os.makedirs(os.path.dirname(sample), exist_ok=True)
                if not os.path.exists(sample):
                    exec(bodies["sample_task"], dict(ns, wildcards=w, output=Listing([sample]), input=Listing()))
                out = f"results/{e}/{t}/{n}-{s}.yaml"
                os.makedirs(os.path.dirname(out), exist_ok=True)
                exec(bodies["apply_estimator"], dict(ns, wildcards=w, output=Listing([out]), input=Listing([sample])))
                ns["ESTIMATORS_DICT"][e].seen()
                files.append((k, out))
            exec(bodies["results"], dict(ns, input=Listing([f for _, f in files]), output=Listing(["results.csv"])))
            results = u.read_results("results.csv", unpack_task_params=False)
            require(len(results) == len(files), "one row per result file", rows=len(results), files=len(files))
            for k, _ in files:
                e, t, n, s = k
                row = results[(results["estimator_id"] == e) & (results["task_id"] == t) & (results["n_samples"] == n) & (results["seed"] == s)]
                require(len(row) == 1, "exactly one row per run", key=k, rows=len(row))
                row = row.iloc[0]
                task = [q for q in ts if q.id == t][0]
                got, exp = row["mi_estimate"], script[k]
                require((math.isnan(got) and math.isnan(exp)) or abs(got - exp) < 1e-9, "the row holds its run's estimate", key=k, got=got, want=exp)
                require_close(float(row["mi_true"]), task.mutual_information, "true mutual information of its own task", 1e-9, 1e-12)
                require(row["task_name"] == task.name, "name of its own task", got=row["task_name"])
                require(row["task_params"] == task.params, "parameters of its own task", got=row["task_params"], want=task.params)
            un = u.read_results("results.csv")
            require(len(un) == len(files) and "task_params" not in un.columns, "unpacked parameters replace the dictionary", columns=list(un.columns))
            for i in range(len(un)):
                task = [q for q in ts if q.id == un["task_id"].iloc[i]][0]
                for kk, v in task.params.items():
                    require(un[kk].iloc[i] == v, "unpacked parameters of its own task", parameter=kk, got=un[kk].iloc[i], want=v)
                require(all(un[c].iloc[i] == results[c].iloc[i] for c in ("estimator_id", "task_id", "n_samples", "seed")), "unpacking keeps the rows in order")
            both = u.read_results("results.csv", unpack_task_params=True, unpack_additional_information=True)
            require(len(both) == len(files), "one row per result file (all unpacked)")
            check_tables(u, r, ts, sizes, results)
            made = {}
            fake = types.SimpleNamespace(
                read_results=lambda p: results,
                create_benchmark_table=lambda df, **k: types.SimpleNamespace(to_html=lambda f: made.__setitem__(f, ("benchmark", k, df is results))),
                create_convergence_table=lambda df, **k: types.SimpleNamespace(to_html=lambda f: made.__setitem__(f, ("convergence", k, df is results))),
            )
            exec(bodies["benchmark_tables"], dict(ns, utils=fake, input=Listing(["results.csv"]), output=Listing([])))
            require({f: (v[0], bool(v[1].get("converged_only"))) for f, v in made.items()} == {
                "benchmark.html": ("benchmark", False), "benchmark_converged_only.html": ("benchmark", True), "benchmark_convergence.html": ("convergence", False)},
                "every published table comes from its own aggregation", got=str(made))
        finally:
            os.chdir(old)
    ctx.count("pipelines")


def run(ctx):
    q = ctx.pick(1, 15)
    c = dict(NE=2, NT=2, NS=2, NR=2, Values={-4, 0, 1, 2, 10, 20}, MaxRuns=4)
    inv = ["ExactlyOnce", "Accounting", "BestConverges", "OneSize", "Emit"]

    def sim(label, n, off, nx="Next", **kw):
        return lambda: ctx.tlc("Workflow", dict(c, **kw), next_=nx, invariants=inv, simulate=n, depth=200, seed=ctx.seed * 100 + off, label=label).rows

    small = dict(c, NE=1, NT=1, NS=ctx.pick(1, 2), NR=3, MaxRuns=3, Values={-4, 0, 1, 10})
    parts = ctx.parallel(
        lambda: ctx.tlc("Workflow", small, invariants=inv, label="one pair, exhaustive").rows,
        sim("one size", 120 * q, 1, NE=3, NT=3, NS=1, NR=3, MaxRuns=14),
        sim("whole tables, one size", 60 * q, 2, nx="NextFull", NE=2, NT=2, NS=1, NR=3, MaxRuns=12, Values={1, 2, 4, 10, 20, 40, 80}),
        sim("several sizes", 120 * q, 3, NE=2, NT=2, NS=3, NR=3, MaxRuns=12, Values={1, 4, 10, 12, 40}),
    )
    u = load_utils()
    ts = tasks()
    rng = random.Random(ctx.seed)
    seen = set()
    rows = []
    for p in parts:
        rng.shuffle(p)
        for r in p[: ctx.pick(260, 4000)]:
            k = repr((r["runs"], r["request"]))
            if k not in seen:
                seen.add(k)
                rows.append(r)
    for i, r in enumerate(rows):
        sizes = rng.choice([[100, 200, 300], [500, 5000, 10000], [7, 20, 3000]])
        label = " ".join(f"{ESTS[x['e'] - 1]}/{x['t']}/{sizes[x['s'] - 1]}/{x['r']}={value(x['v'])}" for x in r["runs"])
        kind = "several sizes" if r["ns"] > 1 else "one size"
        size = "default" if r["request"] == -1 else sizes[r["request"] - 1]

        def one():
            with np.errstate(all="ignore"):
                check_tables(u, r, ts, sizes, frame(r, ts, sizes, rng))

        ctx.case(f"{kind}, requested {size}: {label}", one, sample=i < 3)
        if i % ctx.pick(25, 40) == 0 and len(r["runs"]) > 2:
            ctx.case(f"pipeline, {kind}, requested {size}: {label}", lambda: pipeline(ctx, r, ts, [8, 20, 33], u, rng))

    def log_error():
        import pandas as pd

        df = pd.DataFrame(dict(mi_estimate=[1.0, 2.0, 0.25, 0.0, -1.0, float("nan")], mi_true=[2.0, 1.0, 0.25, 1.0, 1.0, 1.0]))
        got = list(u.add_col_log_relative_error(df.copy())["log_relative_error"])
        require(got[:3] == [-1.0, 1.0, 0.0] and got[3] == -math.inf and all(math.isnan(v) for v in got[4:]), "log-relative error is log2(estimate / truth)", got=got)

    ctx.case("log-relative error", log_error)
    return ctx.finish(
        "model_checking",
        ["run histories of up to 14 results over 3 estimators, 3 tasks, 3 sizes and 3 seeds; the Snakemake rule bodies are executed directly, without the scheduler",
         "jinja2 is replaced by a stand-in when it is not installed: tables are compared as data and shades, not as HTML"],
        "distinct result histories with a requested size",
    )
