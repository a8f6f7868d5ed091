"""C26: aggregation behind the paper's figures against spec/Figures.tla (seaborn is replaced by a recorder)."""
import importlib
import math
import os
import random
import sys
import tempfile
import types

import numpy as np
from harness.lib import require, require_close, require_raises

DRAWN = []


def load():
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.dont_write_bytecode = True
    m = types.ModuleType("seaborn")
    m.heatmap = lambda data, **kw: DRAWN.append((data, kw))
    sys.modules["seaborn"] = m
    sys.path.insert(0, f"{repo}/workflows/projects/Beyond_Normal")
    return importlib.import_module("_common_figure_utils")


def run(ctx):
    k = ctx.pick(1, 12)
    full = "==-3..45"
    mk = lambda ne, nt, ns, nr, runs, num, s, tr={7, 11, 16}: (lambda: ctx.tlc(  # noqa: E731
        "Figures", dict(NE=ne, NT=nt, NS=ns, NR=nr, MaxRuns=runs, Values=full, Truths=tr), invariants=["Laws", "Emit"], simulate=num * k, depth=6 * runs + 60, seed=ctx.seed * 10 + s,
        label=f"{ne} estimators, {nt} tasks, {ns} sizes, {nr} seeds, {runs} runs").rows)
    parts = ctx.parallel(
        mk(1, 1, 3, 2, 6, 60, 1), mk(2, 1, 4, 2, 12, 60, 2), mk(4, 3, 2, 2, 40, 40, 3), mk(4, 3, 3, 3, 60, 30, 4), mk(3, 4, 2, 2, 9, 60, 5), mk(2, 2, 1, 3, 10, 60, 6),
        lambda: ctx.tlc("Figures", dict(NE=1, NT=1, NS=2, NR=2, MaxRuns=3, Values={-1, 0, 1, 11, 20}, Truths={7}), invariants=["Laws"], label="small, exhaustive").rows,
    )
    rows = [r for p in parts for r in p]
    cf = load()
    import bmi
    import matplotlib
    import pandas as pd
    import yaml

    matplotlib.use("agg")
    import matplotlib.pyplot as plt

    class Sampler(bmi.ISampler):
        def __init__(self, mi, cov=None):
            self._mi = mi

        dim_x = property(lambda self: 1)
        dim_y = property(lambda self: 1)

        def sample(self, n_points, rng):
            g = np.random.default_rng(int(rng))
            return g.normal(size=(n_points, 1)) * 3 + 1, g.normal(size=(n_points, 1)) * 0.2

        def mutual_information(self):
            return self._mi

    ESTS = {
        "net": bmi.estimators.InfoNCEEstimator(verbose=False), "CCA": bmi.estimators.CCAMutualInformationEstimator(),
        "mine": bmi.estimators.MINEEstimator(verbose=False), "hist": bmi.estimators.HistogramEstimator(),
    }
    seen = set()

    def frame(r, ids, tids, sizes, rng):
        rs = list(r["runs"])
        df = pd.DataFrame([
            dict(estimator_id=ids[x["e"] - 1], task_id=tids[x["t"] - 1], n_samples=sizes[x["s"] - 1], seed=x["r"], mi_estimate=x["v"] / 8, mi_true=r["truth"][x["t"] - 1] / 8,
                 additional_information={}, time_in_seconds=2.0)
            for x in rs
        ])
        if rng.random() < 0.4:
            df.index = rng.sample(range(100, 300), len(df))
        return df

    def logs(vs, t):
        out = []
        for v in vs:
            out.append(-math.inf if v == 0 else math.log(v / t))
        return sum(out) / len(out) if out else math.nan

    def finite(v):
        return v if math.isfinite(v) else math.nan

    def same(got, want, clause, **d):
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float).reshape(got.shape) if np.size(want) == got.size else np.asarray(want)
        require(got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-9, equal_nan=True), clause, got=got, want=want, **d)

    for r in rows:
        key = str((r["truth"], r["runs"]))[:900]
        if key in seen:
            continue
        seen.add(key)
        rng = random.Random(f"{ctx.seed}-{key}")
        o = r["out"]

        def go(r=r, o=o):
            NE, NT = len(o["kept"]), len(r["truth"])
            ids = ["net", "CCA", "mine", "hist"][:NE]
            order = rng.sample(ids, NE)  # order of the rows of the figures
            ests = {i: ESTS[i] for i in order}
            if rng.random() < 0.5:
                ests["unused"] = bmi.estimators.NWJEstimator(verbose=False)
            tids = rng.sample(["b-task", "a-task", "c-task", "d-task"], NT)
            torder = rng.sample(tids, NT)
            tasks = {i: bmi.Task(sampler=Sampler(r["truth"][tids.index(i)] / 8), task_id=i, task_name=f"Task {i}") for i in torder}
            sizes = rng.choice([[100, 250, 500, 1000], [500, 1000, 5000, 10000], [5, 2000, 3000, 100000], [1000, 2000, 4000, 8000]])
            df = frame(r, ids, tids, sizes, rng)
            keep = df.copy()
            names = {i: f"name of {i}" for i in ids + ["unused"]}
            # flags
            pre = cf.preprocess_benchmark_results(df, ests)
            require(len(pre) == len(df), "one row per run", got=len(pre))
            by = {(p.estimator_id, p.task_id, p.n_samples, p.seed): p for p in pre.itertuples()}
            for x, failed in zip(r["runs"], o["failed"]):
                p = by[ids[x["e"] - 1], tids[x["t"] - 1], sizes[x["s"] - 1], x["r"]]
                require(bool(p.neural_estimator) == (x["e"] % 2 == 1), "neural estimators are recognised", run=x)
                require(bool(p.neural_fail) == failed, "a neural run fails when negative or below a tenth of its best seed", run=x, runs=r["runs"])
                t = r["truth"][x["t"] - 1]
                want = math.nan if x["v"] < 0 else -math.inf if x["v"] == 0 else math.log(x["v"] / t)
                require_close(p.log_relative_error, want, "log of estimate over true value", run=x)
                require(p.mi_estimate == x["v"] / 8, "the estimate is kept")
            require(df.equals(keep), "the given results are unchanged")

            def table(cell, want_est, want_tasks):
                return [[cell(ids.index(e), tids.index(t)) for t in want_tasks] for e in want_est]

            # estimates of the largest size
            has_e = [e for e in order if any(o["kept"][ids.index(e)][t] for t in range(NT))]
            has_t = [t for t in torder if any(o["kept"][e][tids.index(t)] for e in range(NE))]
            fig, ax = plt.subplots()
            try:
                if has_e:
                    DRAWN.clear()
                    cf.plot_benchmark_mi_estimate(ax, df, ests, tasks, names)
                    require(len(DRAWN) == 1, "one table is drawn")
                    data, kw = DRAWN[0]
                    annot = kw["annot"]
                    require(list(data.columns) == [f"Task {t}" for t in has_t], "columns: the tasks with results, in the order of the tasks", got=list(data.columns), want=has_t)
                    require(list(data.index) == [names[e] for e in has_e] + ["True MI"] == list(annot.index), "rows: the estimators in their order, then the true value", got=list(data.index))
                    kept = o["kept"]
                    mean = lambda v: sum(v) / 8 / len(v) if v else math.nan  # noqa: E731
                    same(annot.to_numpy(dtype=float), table(lambda e, t: mean(kept[e][t]), has_e, has_t) + [[r["truth"][tids.index(t)] / 8 for t in has_t]],
                         "numbers: mean estimate of the runs that did not fail, at the largest size", runs=r["runs"])
                    # pandas adds infinities in a compensated sum: they may come out as not-a-number
                    shown = data.to_numpy(dtype=float).copy()
                    shown[np.isneginf(shown)] = math.nan
                    same(shown, table(lambda e, t: finite(logs(kept[e][t], r["truth"][t])), has_e, has_t) + [[0.0] * len(has_t)],
                         "colours: mean log relative error of the same runs", runs=r["runs"])
                    ctx.count("estimate tables")
                # failures
                fails = o["fails"]
                f_e = [e for e in order if any(fails[ids.index(e)][t] >= 0 for t in range(NT))]
                f_t = [t for t in torder if any(fails[e][tids.index(t)] >= 0 for e in range(NE))]
                if f_e:
                    DRAWN.clear()
                    cf.plot_benchmark_neural_fails(ax, df, ests, tasks, names)
                    data, kw = DRAWN[0]
                    require(list(data.columns) == [f"Task {t}" for t in f_t] and list(data.index) == [names[e] for e in f_e], "neural estimators by tasks", got=(list(data.index), list(data.columns)))
                    same(data.to_numpy(dtype=float), table(lambda e, t: fails[e][t] if fails[e][t] >= 0 else math.nan, f_e, f_t), "numbers of failed runs at the largest size", runs=r["runs"])
                    ctx.count("failure tables")
                # samples needed
                need = o["needed"]
                n_e = [e for e in order if any(need[ids.index(e)])]
                n_t = [t for t in torder if any(need[e][tids.index(t)] for e in range(NE))]
                top = max(sizes[x["s"] - 1] for x in r["runs"])
                if n_e and not any(map(any, o["tie"])):
                    DRAWN.clear()
                    cf.plot_benchmark_n_samples(ax, df, ests, tasks, names)
                    data, kw = DRAWN[0]
                    require(list(data.columns) == [f"Task {t}" for t in n_t] and list(data.index) == [names[e] for e in n_e], "estimators by tasks", got=(list(data.index), list(data.columns)))
                    val = lambda e, t: math.nan if not need[e][t] else sizes[need[e][t] - 1] if need[e][t] <= r["ns"] else math.inf  # noqa: E731
                    want = table(val, n_e, n_t)
                    got = data.to_numpy(dtype=float)
                    for a, b in zip(got.ravel(), np.ravel(want)):
                        require((math.isnan(a) and math.isnan(b)) or (a > top and math.isinf(b)) or a == b,
                                "samples needed: the smallest size from which on the mean log relative error stays below log 3/2", got=got, want=want, runs=r["runs"], truth=r["truth"])
                    show = lambda v: "" if math.isnan(v) else (f">{top // 1000}k" if math.isinf(v) else str(int(v)) if v < 1000 else f"{int(v) // 1000}k")  # noqa: E731
                    wanted = [[show(v) for v in row] for row in want]
                    got = np.asarray(kw["annot"]).tolist()
                    if top >= 1000:
                        require(got == wanted, "labels of the samples needed", got=got, want=wanted)
                    ctx.count("sample tables")
            finally:
                plt.close(fig)
            require(df.equals(keep), "the given results are unchanged")

        ctx.case(key, go, sample=dict(truth=r["truth"], runs=r["runs"][:4]))

    def reading(seed):
        def go():
            g = random.Random(seed)
            rows_ = []
            for i in range(g.randrange(1, 9)):
                rows_.append(dict(estimator_id="CCA", mi_estimate=g.choice([0.25, 1.0, 3.0, 2.999, 7.5, -1.0]), mi_true=1.0, seed=i, n_samples=100,
                                  task_params=dict(alpha=i / 4, n_interacting=i, name=f"t{i}"), additional_information=dict(steps=10 * i)))
            p = os.path.join(ctx.scratch, f"results{seed}.csv")
            out = pd.DataFrame(rows_)
            for c in ("task_params", "additional_information"):
                out[c] = out[c].map(lambda d: yaml.dump(d))
            out.to_csv(p, index=False)
            cap = g.choice([None, 3.0, 7.5, 0.5, 0.0])
            up, ua = g.random() < 0.7, g.random() < 0.5
            kw = {}
            if not up or g.random() < 0.5:
                kw["unpack_task_params"] = up
            if ua or g.random() < 0.5:
                kw["unpack_additional_information"] = ua
            res = cf.read_results(p, **kw, **({} if cap is None else dict(max_mi_estimate=cap)))
            want = []
            for d in rows_:
                if cap is not None and not d["mi_estimate"] < cap:
                    continue
                w = {k_: v for k_, v in d.items() if k_ not in ("task_params", "additional_information")}
                w.update(d["task_params"] if up else dict(task_params=d["task_params"]))
                w.update(d["additional_information"] if ua else dict(additional_information=d["additional_information"]))
                want.append(w)
            got = [dict(x) for x in res.to_dict("records")]
            require(got == want, "rows read: parameters unpacked, estimates below the maximum kept", got=got[:3], want=want[:3], cap=cap)

        ctx.case(f"reading {seed}", go)

    for s in range(ctx.pick(25, 200)):
        reading(s)

    def curves(seed):
        def go():
            g = random.Random(seed)
            rows_ = []
            xs = g.sample(range(10), g.randrange(1, 5))
            ids = g.sample(["CCA", "MINE", "R-LNN", "InfoNCE"], g.randrange(1, 4))
            R = g.randrange(1, 4)
            several = g.random() < 0.4  # several tasks share an argument
            for e in ids:
                for x in xs:
                    for s in range(R):
                        rows_.append(dict(estimator_id=e, alpha=x, seed=s, mi_estimate=g.randrange(0, 40) / 8, mi_true=(x + 1) / 4 + (s / 8 if several else 0)))
            g.shuffle(rows_)
            df = pd.DataFrame(rows_)
            band = g.random() < 0.7
            fig, ax = plt.subplots()
            try:
                kw = {} if band and g.random() < 0.5 else dict(plot_std=band)
                lab = g.choice([None, "label"])
                if lab:
                    kw["x_label"] = lab
                cf.plot_mi(ax, df, "alpha", **kw)
                lines = {ln.get_label(): ln for ln in ax.get_lines()}
                require(set(lines) == {cf.ESTIMATOR_NAMES[e] for e in ids} | {"True MI"}, "one curve per estimator and the truth", got=list(lines))
                for e in ids + ["True MI"]:
                    ln = lines[cf.ESTIMATOR_NAMES.get(e, e)]
                    want = [(x, np.mean([d["mi_true" if e == "True MI" else "mi_estimate"] for d in rows_ if d["alpha"] == x and e in (d["estimator_id"], "True MI")])) for x in sorted(xs)]
                    got = list(zip(ln.get_xdata(), ln.get_ydata()))
                    require(np.allclose(np.asarray(got, dtype=float), np.asarray(want)), "curve: mean over the seeds at every argument", estimator=e, got=got, want=want)
                    if e != "True MI":
                        require(matplotlib.colors.same_color(ln.get_color(), cf.ESTIMATOR_COLORS[e]), "colour of the estimator")
                require(len(ax.collections) == (len(ids) if band else 0), "bands are drawn when asked", got=len(ax.collections))
                if band and R > 1:
                    for c, e in zip(ax.collections, sorted(ids)):
                        pts = {(round(float(a), 6), round(float(b), 6)) for a, b in c.get_paths()[0].vertices}
                        for x in xs:
                            v = [d["mi_estimate"] for d in rows_ if d["alpha"] == x and d["estimator_id"] == e]
                            for sgn in (-1, 1):
                                w = (float(x), round(float(np.mean(v) + sgn * np.std(v, ddof=1)), 6))
                                require(any(abs(w[0] - a) < 1e-5 and abs(w[1] - b) < 1e-5 for a, b in pts), "band: one standard deviation over the seeds", estimator=e, x=x, want=w, got=sorted(pts))
                require(ax.get_xlabel() == (lab or "alpha"), "label of the axis", got=ax.get_xlabel())
                require(ax.get_ylim()[0] == 0, "axis starts at 0")
            finally:
                plt.close(fig)

        ctx.case(f"curves {seed}", go)

    for s in range(ctx.pick(25, 200)):
        curves(s)

    def scaled():
        B = bmi.benchmark.BENCHMARK_TASKS
        ts = {"k1": B["1v1-normal-0.75"], "k2": B["asinh-student-identity-3-3-2"], "k3": B["spiral-multinormal-sparse-3-3-2-2.0"],
              "other": bmi.Task(sampler=Sampler(0.5), task_id="i", task_name="n")}
        out = cf.scale_tasks(ts)
        require(list(out) == list(ts), "the same keys", got=list(out))
        for i, t in ts.items():
            u = out[i]
            require((u.id, u.name) == (t.id, t.name), "names and identifiers are kept", got=(u.id, u.name))
            require_close(u.mutual_information, t.mutual_information, "mutual information is kept", 1e-6, 1e-6)
            require((u.dim_x, u.dim_y) == (t.dim_x, t.dim_y), "dimensions are kept")
            x, y = map(np.asarray, u.sample(4000, 3))
            bx, by = map(np.asarray, t.sample(4000, 3))
            for a, b in ((x, bx), (y, by)):
                require(np.abs(a.std(axis=0) - 1).max() < 0.15 and np.abs(a.mean(axis=0)).max() < 0.15, "coordinates have mean 0 and unit variance", std=a.std(axis=0), mean=a.mean(axis=0))
                for j in range(a.shape[1]):
                    require(abs(np.corrcoef(a[:, j], b[:, j])[0, 1] - 1) < 1e-3, "coordinates are rescaled one by one")

    ctx.case("scaled tasks", scaled)

    def listed():
        for e in cf.ESTIMATORS:
            require(callable(cf.ESTIMATORS[e].estimate) and e in cf.ESTIMATOR_COLORS and e in cf.ESTIMATOR_NAMES, "estimators have names and colours", e=e)

    ctx.case("estimators", listed)
    return ctx.finish(
        "model_checking",
        ["seaborn is not installed: a recorder stands for its heatmap", "classical estimates are not negative; sizes where the mean error is exactly log 3/2 are left out"],
        "distinct set of runs with the tables of the specification",
    )
