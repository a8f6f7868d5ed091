"""C14: the uniform estimator interface (spec/Interface.tla)."""
import contextlib
import io
import random

import numpy as np
from harness.lib import require, require_raises

CLASSES = ["KSG", "KSGslow", "Histogram", "KDE", "CCA", "Functional", "InfoNCE", "NWJ", "DV", "MINE"]
NEURAL = {"InfoNCE", "NWJ", "DV", "MINE"}


def generic(x, y, bins=(2, 3, 4, 5)):
    """No two decisive distances closer than rounding, no point near a bin edge:
    then single precision decides everything like double precision."""
    for z in ((x, y), ((x - x.mean(0)) / x.std(0), (y - y.mean(0)) / y.std(0))):
        for ordx in (1, 2, np.inf):
            dx = np.linalg.norm(z[0][:, None] - z[0][None], ord=ordx, axis=-1)
            dy = np.linalg.norm(z[1][:, None] - z[1][None], ord=ordx, axis=-1)
            both = np.concatenate([dx, dy], axis=1)
            for i, row in enumerate(both):
                v = np.sort(np.delete(row, [i, i + len(x)]))
                if np.min(np.diff(v)) < 3e-6:
                    return False
        for a in z:
            for b in bins:
                s = (a - a.min(0)) / (a.max(0) - a.min(0)) * b
                r = np.abs(s - np.round(s))
                inner = (s > 0.01) & (s < b - 0.01)
                if np.any(r[inner] < 1e-5):
                    return False
    return True


def data_sets(r):
    out = []
    for n, dx, dy in ((14, 1, 1), (16, 2, 1), (15, 1, 3)):
        while True:
            z = r.integers(0, 15000, size=(n, 1))
            x = z + r.integers(0, 45000, size=(n, dx))
            y = z + r.integers(0, 45000, size=(n, dy))
            if generic(x.astype(float), y.astype(float)):
                break
        out.append((x, y))
    return out


def container(a, form):
    import jax.numpy as jnp

    if "int" in form and not np.array_equal(a, np.rint(a)):
        form = "float64"  # this form cannot hold the data
    if np.max(np.abs(a)) > 2**53 and form != "list":
        form = "int64"
    if form == "list":
        return a.tolist()
    if form == "tuple":
        return tuple(tuple(float(v) for v in row) for row in a)
    if form == "rows":
        return [row.astype(float) for row in a]
    if form == "fortran":
        return np.asfortranarray(a.astype(float))
    if form == "strided":
        return np.repeat(a.astype(float), 3, axis=0)[::3]
    if form == "readonly":
        b = a.astype(float)
        b.setflags(write=False)
        return b
    if form == "jaxfloat":
        return jnp.asarray(a, dtype=jnp.float32)
    if form == "jaxint":
        return jnp.asarray(a, dtype=jnp.int32)
    return a.astype(form)


def makers():
    from bmi import estimators as est

    nn = dict(batch_size=5, max_n_steps=3, test_every_n_steps=1, verbose=False, learning_rate=0.001, hidden_layers=[3])
    return {
        "KSG": [
            lambda: est.KSGEnsembleFirstEstimator(neighborhoods=[2, 5]),
            lambda: est.KSGEnsembleFirstEstimator(neighborhoods=(3,), standardize=False, metric_x="manhattan"),
            lambda: est.KSGEnsembleFirstEstimator(metric_x="chebyshev", metric_y="euclidean", chunk_size=4),
        ],
        "KSGslow": [
            lambda: est.KSGEnsembleFirstEstimatorSlow(neighborhoods=[2, 5]),
            lambda: est.KSGEnsembleFirstEstimatorSlow(neighborhoods=(3,), standardize=False, metric_x="manhattan"),
        ],
        "Histogram": [
            lambda: est.HistogramEstimator(n_bins_x=3),
            lambda: est.HistogramEstimator(n_bins_x=2, n_bins_y=4, standardize=False),
            lambda: est.HistogramEstimator(),
        ],
        "KDE": [
            lambda: est.KDEMutualInformationEstimator(kernel_xy="gaussian"),
            lambda: est.KDEMutualInformationEstimator(kernel_xy="gaussian", bandwidth_xy=5000.0, standardize=False),
            lambda: est.KDEMutualInformationEstimator(kernel_xy="exponential", bandwidth_x="silverman", bandwidth_y=0.7),
        ],
        "CCA": [lambda: est.CCAMutualInformationEstimator(), lambda: est.CCAMutualInformationEstimator(scale=False)],
        "InfoNCE": [lambda: est.InfoNCEEstimator(**nn)],
        "NWJ": [lambda: est.NWJEstimator(**nn)],
        "DV": [lambda: est.DonskerVaradhanEstimator(**nn)],
        "MINE": [lambda: est.MINEEstimator(**nn)],
    }


class OwnError(Exception):
    pass


def record_builtin(cls, which, script, seed):
    data = data_sets(np.random.default_rng(seed))
    a, b = data[0], data[1]
    data += [
        (a[0], a[1][:-1]),
        (a[0][:-1], a[1]),
        (a[0], a[1][:1]),
        (a[0][:1], a[1]),
        (b[0], b[1][: len(b[1]) // 2]),
        (b[0], np.concatenate([b[1], b[1]])),
    ]
    refuse = [4, 5, 6, 7, 8, 9]
    e = makers()[cls][which]()
    tol = 3e-3 if cls in NEURAL | {"CCA"} else 2e-4
    known = []

    def name(v):
        for i, w in enumerate(known):
            if (np.isnan(v) and np.isnan(w)) or abs(v - w) <= tol * max(1.0, abs(w)):
                return i + 1
        known.append(v)
        return len(known)

    ev = []
    for s in script:
        x0, y0 = data[s["data"] - 1]
        x, y = container(x0, s["fx"]), container(y0, s["fy"])
        rec = dict(op=s["op"], data=s["data"], val=0, form=[s["fx"], s["fy"]])
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if s["op"] == "est":
                    v = e.estimate(x, y)
                else:
                    v = e.estimate_with_info(x, y).mi_estimate
            rec["val"] = name(float(v))
            rec["outcome"] = "ok"
        except Exception as exc:
            rec["outcome"] = f"{type(exc).__name__}: {exc}"[:200]
        rec["same"] = bool(np.array_equal(np.asarray(x), x0) and np.array_equal(np.asarray(y), y0))
        ev.append(rec)
    return dict(ev=ev, wrapped=False, refuse=refuse)


def record_wrapped(script, seed):
    from bmi.estimators.function_wrapper import FunctionalEstimator
    from bmi.interface import BaseModel

    class P(BaseModel):
        alpha: float = 0.5

    class Empty(BaseModel):  # falsy
        items: list = []

        def __len__(self):
            return len(self.items)

        def __eq__(self, other):
            return True

    r = np.random.default_rng(seed)
    data = data_sets(r)
    n = 7
    data += [
        (r.integers(0, 9, size=(n, 1)), r.integers(0, 40, size=(n, 1)) / 4 + 0.25),
        (r.integers(0, 9, size=(1, 2)) + 0.5, r.integers(0, 9, size=(1, 2))),
        (r.integers(0, 9, size=(n, 2)), r.integers(0, 9, size=(n, 2))),
        (r.integers(0, 9, size=(n, 1)) + 2**60 + 1, r.integers(0, 9, size=(n, 1)) + 2**60 + 1),
    ]
    values = dict(float=0.123456789012345678, numpy=np.float32(0.3), int=3, nan=float("nan"), inf=float("inf"), array0=np.asarray(0.75), text="no number")
    seen, cur = [], {}

    def ident(a, side):
        for i, d in enumerate(data):
            if np.shape(a) == d[side].shape and np.asarray(a).tolist() == d[side].tolist():
                return i + 1
        return 0

    def func(*args, **kwargs):
        a = list(args) + list(kwargs.values())
        x, y = a[0], a[1]
        t = cur["data"]
        xy = np.shape(x) == t[0].shape and np.asarray(x).tolist() == t[0].tolist() and np.shape(y) == t[1].shape and np.asarray(y).tolist() == t[1].tolist()  # exact also beyond 2^53
        seen.append(
            dict(
                tx="ndarray" if type(x) is np.ndarray else type(x).__name__,
                ty="ndarray" if type(y) is np.ndarray else type(y).__name__,
                x=ident(x, 0),
                y=ident(y, 1),
                side="xy" if xy and len(a) == 2 else "??",
            )
        )
        if cur["beh"] == "raise":
            raise OwnError("mine")
        return values[cur["beh"]]

    params = random.Random(seed).choice([None, P(), P(alpha=2.0), Empty()])
    e = FunctionalEstimator(func, params=params) if params is not None else FunctionalEstimator(func)
    default = e.parameters()
    ev = []
    for s in script:
        x0, y0 = data[s["data"] - 1]
        cur.update(data=(x0, y0), beh=s["beh"])
        seen.clear()
        x, y = container(x0, s["fx"]), container(y0, s["fy"])
        rec = dict(op=s["op"], data=s["data"], beh=s["beh"], val=0, unchanged=False)
        want = values.get(s["beh"])
        try:
            if s["op"] == "est":
                v = e.estimate(x, y)
                rec["unchanged"] = v is want or (type(v) is type(want) and (v == want or v != v))
            else:
                res = e.estimate_with_info(x, y)
                v = res.mi_estimate
                w = float("nan") if isinstance(want, str) else float(want)
                rec["unchanged"] = (v == w or (v != v and w != w)) and res.additional_information == {}
            rec["outcome"] = "ok"
        except OwnError:
            rec["outcome"] = "own error"
        except Exception as exc:
            rec["outcome"] = f"{type(exc).__name__}: {exc}"[:200]
        rec["seen"] = [dict(v) for v in seen]
        rec["params"] = e.parameters() is params if params is not None else e.parameters().dict() == {} == default.dict()
        rec["same"] = bool(np.array_equal(np.asarray(x), x0) and np.array_equal(np.asarray(y), y0))
        ev.append(rec)
    return dict(ev=ev, wrapped=True, refuse=[])


def run(ctx):
    k = ctx.pick(1, 12)
    opts, builtin, wrapped = ctx.parallel(
        lambda: ctx.tlc("Interface", dict(Classes={"KSG", "Histogram", "KDE", "Neural", "MINE"}, MaxLen=0, NData=1), spec="OptSpec",
                        invariants=["OptEmit", "OptLaws"], label="options, exhaustive").rows,
        lambda: ctx.tlc("Interface", dict(Classes=set(), MaxLen=12, NData=9), spec="CallSpec", invariants=["CallEmit"], simulate=130 * k,
                        depth=90, seed=ctx.seed, label="call scripts").rows,
        lambda: ctx.tlc("Interface", dict(Classes=set(), MaxLen=20, NData=7), spec="CallSpec", invariants=["CallEmit"], simulate=40 * k,
                        depth=120, seed=ctx.seed + 1, label="wrapped functions").rows,
    )
    if len(opts) < 1000 or not builtin or not wrapped:
        raise RuntimeError("scripts missing")

    cost = {c: 12 if c in NEURAL else 1 for c in CLASSES}
    plan = []
    for i, row in enumerate(builtin):
        for c in CLASSES:
            if c == "Functional" or (c in NEURAL and i >= 8 * k):
                continue
            nconf = dict(KSG=3, KSGslow=2, Histogram=3, KDE=3, CCA=2).get(c, 1)
            plan.append((c, i % nconf, row, ctx.seed * 1000 + i))
    for i, row in enumerate(wrapped):
        plan.append(("Functional", 0, row, ctx.seed * 1000 + i))
    plan.sort(key=lambda t: -cost[t[0]])

    def worker(part):
        def go():
            out = []
            for c, w, row, seed in part:
                t = record_wrapped(row["script"], seed) if c == "Functional" else record_builtin(c, w, row["script"], seed)
                ctx.evaluations += len(t["ev"])
                ctx.distinct.add(f"{c} {w} {seed}")
                out.append((c, w, seed, t))
            return out

        return go

    def option_worker():
        options(ctx, opts)
        return []

    nw = 7
    done = [t for part in ctx.shard(*[worker(plan[i::nw]) for i in range(nw)], option_worker) for t in part]
    parts = [done[i::4] for i in range(4)]
    vs = ctx.parallel(*[(lambda p=p: ctx.validate_traces("Interface", [t[3] for t in p], dict(Classes=set(), MaxLen=0, NData=1))) for p in parts])
    for p, verdicts in zip(parts, vs):
        for (c, w, seed, t), v in zip(p, verdicts):
            ctx.count(f"histories {c}")
            if not v["ok"]:
                ctx.report(f"{c} configuration {w} data seed {seed}", v["clause"], {"event": t["ev"][v["at"] - 1], "before": t["ev"][: v["at"] - 1][-3:]})
    ctx.samples = [{"class": t[0], "history": t[3]["ev"][:3]} for t in done[:4]]
    return ctx.finish(
        "model_checking",
        [
            "data are integers with no ties at decisive radii and no points on inner bin edges, so that single precision decides alike",
            "estimates in different containers agree to 2e-4 (iterative CCA and neural estimators: 3e-3)",
            "built-in estimators refuse arrays of different length; a wrapped function sees them as they are",
        ],
        "distinct history of calls decided by TLC, or constructor options resolved by the specification",
    )


def options(ctx, opts):
    from bmi import estimators as est

    r = np.random.default_rng(ctx.seed)
    x, y = data_sets(r)[1]
    x, y = x / 10000.0, y / 10000.0
    rng = random.Random(ctx.seed)
    classes = {
        "KSG": [est.KSGEnsembleFirstEstimator, est.KSGEnsembleFirstEstimatorSlow],
        "Histogram": [est.HistogramEstimator],
        "KDE": [est.KDEMutualInformationEstimator],
        "Neural": [est.InfoNCEEstimator, est.NWJEstimator, est.DonskerVaradhanEstimator],
        "MINE": [est.MINEEstimator],
    }
    names = {est.InfoNCEEstimator: "InfoNCE", est.NWJEstimator: "NWJ", est.DonskerVaradhanEstimator: "Donsker-Varadhan"}

    def py(key, v):
        if v == "null":
            return None
        if v[0] == "i" and v[1:].isdigit():
            return int(v[1:])
        if v[0] == "f" and v[1:].replace(".", "").isdigit():
            return float(v[1:])
        if v[0] == "l" and v[1].isdigit():
            return [int(t) for t in v[1:].split(",")]
        return {"bT": True, "bF": False}.get(v, v)

    def reported(p, key):
        if key == "hidden_layers" and not hasattr(p, key):
            return list(p.critic_params.hidden_layers)
        v = getattr(p, key)
        return list(v) if isinstance(v, (list, tuple)) else v

    for row in opts:
        given = {k: py(k, v) for k, v in row["given"].items() if v != "omitted"}
        eff = {k: py(k, v) for k, v in row["eff"].items()}
        for cls in classes[row["cls"]]:
            values = rng.random() < (0.15 if row["cls"] == "KDE" else 0.6 if cls is not est.KSGEnsembleFirstEstimatorSlow else 0.2)

            def go():
                kw = dict(given)
                if "hidden_layers" in kw and rng.random() < 0.5:
                    kw["hidden_layers"] = tuple(kw["hidden_layers"])
                e = cls(**kw)
                p = e.parameters()
                for key, want in eff.items():
                    got = reported(p, key)
                    require(got == want and type(got) is type(want), "effective value of a parameter", parameter=key, got=got, want=want)
                if cls in names:
                    require(p.mi_formula == names[cls], "name of the objective", got=p.mi_formula)
                if values and row["cls"] in ("KSG", "Histogram", "KDE"):
                    a, b = e.estimate(x, y), cls(**eff).estimate(x, y)
                    require(abs(a - b) <= 1e-12, "omitted options act like their effective values", omitted=a, explicit=b)
                    require(e.parameters() == p, "parameters after an estimate")

            ctx.case(f"{cls.__name__} {given}", go)

    # positional order and refusal of senseless values are part of the interface as well
    def refused():
        for bad in (0, -1):
            require_raises(ValueError, lambda: est.HistogramEstimator(n_bins_x=bad), "number of bins", bad=bad)
        require_raises(ValueError, lambda: est.HistogramEstimator(n_bins_y=-2), "number of bins")
        require_raises(ValueError, lambda: est.KDEMutualInformationEstimator(kernel_xy="box"), "unknown kernel")
        require_raises(ValueError, lambda: est.KDEMutualInformationEstimator(kernel_y="box"), "unknown kernel")
        for cls in (est.InfoNCEEstimator, est.NWJEstimator, est.DonskerVaradhanEstimator, est.MINEEstimator):
            for kw in (dict(batch_size=0), dict(batch_size=-3), dict(max_n_steps=0), dict(learning_rate=0.0), dict(learning_rate=-1.0)):
                require_raises(ValueError, lambda: cls(verbose=False, **kw), "training option", option=kw)
        for a in (0.0, 1.0, -0.5, 2.0):
            require_raises(ValueError, lambda: est.MINEEstimator(smoothing_alpha=a), "smoothing", alpha=a)
        for cls in (est.InfoNCEEstimator, est.NWJEstimator, est.DonskerVaradhanEstimator):
            require_raises(ValueError, lambda: cls(_train_backend="cubic"), "unknown backend")

    ctx.case("refused options", refused)
