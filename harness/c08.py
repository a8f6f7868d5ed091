"""C08: nothing carried over between calls (spec/EstHist.tla).

TLC generates histories of calls on three estimator objects; the recordings of
the real estimators are decided by TLC (TraceSpec of the same module).
"""
import contextlib
import io
import random

import numpy as np

CLASSES = ["KSG", "KSGslow", "Histogram", "KDE", "CCA", "Functional", "InfoNCE", "NWJ", "DV", "MINE"]
NEURAL = {"InfoNCE", "NWJ", "DV", "MINE"}
KSG = {"KSG", "KSGslow"}


OWNED = []  # lists given to constructors, which the caller changes later


def own(v):
    OWNED.append(list(v))
    return OWNED[-1]


def data_sets(seed):
    r = np.random.default_rng(seed)

    def pair(n, dx, dy, rho=0.7):
        z = r.normal(size=(n, 1))
        x = rho * z + r.normal(size=(n, dx))
        y = rho * z + r.normal(size=(n, dy))
        return np.round(x * 64) / 64, np.round(y * 64) / 64

    a = pair(14, 1, 1)
    b = pair(14, 1, 1)
    c = pair(17, 3, 2)
    d = pair(12, 1, 2)
    e = (a[0], b[1][:-1])  # different lengths
    f = pair(4, 1, 1)  # too few points
    g = (np.round(pair(16, 2, 2)[0] * 8).astype(int), np.round(pair(16, 1, 2)[1] * 8).astype(int))
    h = (a[0].copy(), a[1].copy())
    h[0][3, 0] = np.nan
    return [a, b, c, d, e, f, g, h]


REFUSE = [5]


def setup():
    from bmi import estimators as est
    from bmi.estimators.base import EstimatorNotFittedException
    from bmi.estimators.function_wrapper import FunctionalEstimator

    def mean_product(x, y):
        return float(np.mean(x) * 2 + np.mean(y)) if len(x) == len(y) else 1 / 0

    def neural(cls, **kw):
        base = dict(batch_size=5, max_n_steps=5, test_every_n_steps=2, verbose=False, learning_rate=0.05)
        base.update(kw)
        layers = base.pop("hidden_layers")
        return lambda: cls(**base, hidden_layers=own(layers) if isinstance(layers, list) else layers)

    def nn(cls):
        return [
            neural(cls, hidden_layers=[3]),
            neural(cls, hidden_layers=[3], seed=7),
            neural(cls, hidden_layers=(4, 2), standardize=False, train_test_split=0.7),
            neural(cls, hidden_layers=[3], train_test_split=None, batch_size=6),
        ]

    def ksg(cls):
        return [
            lambda: cls(neighborhoods=own([2, 5])),
            lambda: cls(neighborhoods=own([3]), standardize=False),
            lambda: cls(neighborhoods=(1, 2, 7), metric_x="chebyshev", metric_y="manhattan"),
        ]

    from bmi.interface import BaseModel

    class P(BaseModel):
        a: int = 3

    return EstimatorNotFittedException, {
        "KSG": ksg(est.KSGEnsembleFirstEstimator),
        "KSGslow": ksg(est.KSGEnsembleFirstEstimatorSlow),
        "Histogram": [
            lambda: est.HistogramEstimator(n_bins_x=3),
            lambda: est.HistogramEstimator(n_bins_x=2, n_bins_y=4, standardize=False),
            lambda: est.HistogramEstimator(),
        ],
        "KDE": [
            lambda: est.KDEMutualInformationEstimator(),
            lambda: est.KDEMutualInformationEstimator(kernel_xy="gaussian", bandwidth_xy=0.5, standardize=False),
            lambda: est.KDEMutualInformationEstimator(kernel_xy="gaussian", kernel_x="exponential", bandwidth_xy="silverman"),
        ],
        "CCA": [lambda: est.CCAMutualInformationEstimator(), lambda: est.CCAMutualInformationEstimator(scale=False)],
        "Functional": [
            lambda: FunctionalEstimator(mean_product, params=P(a=4)),
            lambda: FunctionalEstimator(lambda x, y: -mean_product(x, y)),
        ],
        "InfoNCE": nn(est.InfoNCEEstimator),
        "NWJ": nn(est.NWJEstimator),
        "DV": nn(est.DonskerVaradhanEstimator),
        "MINE": nn(est.MINEEstimator) + [neural(est.MINEEstimator, hidden_layers=[3], smoothing_alpha=0.4)],
    }


def flat(v):
    """Any answer as (structure, numbers)."""
    nums = []

    def walk(o):
        if isinstance(o, dict):
            return {str(k): walk(w) for k, w in sorted(o.items(), key=lambda t: str(t[0])) if "time" not in str(k)}
        if isinstance(o, (list, tuple)):
            return [walk(w) for w in o]
        if isinstance(o, (str, bool)) or o is None:
            return o
        a = np.asarray(o, dtype=float)
        nums.extend(a.ravel().tolist())
        return f"<{a.shape}>"

    return repr(walk(v)), np.array(nums, dtype=float)


class Namer:
    """Names values: values equal up to rounding get the same name."""

    def __init__(self, tol):
        self.known = []
        self.tol = tol

    def __call__(self, v):
        s, a = flat(v)
        for i, (t, b) in enumerate(self.known):
            if s == t and a.shape == b.shape and np.allclose(a, b, rtol=self.tol, atol=self.tol, equal_nan=True):
                return i + 1
        self.known.append((s, a))
        return len(self.known)


def run_history(cls, row, seed, notfitted, makers):
    import jax

    OWNED.clear()
    data = data_sets(seed)
    namer = Namer(1e-5 if cls in NEURAL else 1e-10)
    cfg = row["cfgs"]
    objs, given, ev, held = {}, {}, [], []
    buffers = {}

    def make(o):
        c = cfg[1] if o == 3 else cfg[0]
        objs[o] = makers[c - 1]()
        given[o] = repr(objs[o].parameters())

    for o in (1, 2, 3):
        make(o)

    def arrays(d, form):
        x, y = data[d - 1]
        if form == "list":
            return x.tolist(), y.tolist()
        out = []
        for name, a in (("x", x), ("y", y)):
            if form == "buffer":
                k = (name, a.shape, str(a.dtype))
                if k not in buffers:
                    buffers[k] = np.empty_like(a)
                buffers[k][...] = a
                out.append(buffers[k])
            else:
                b = a.copy()
                if form == "readonly":
                    b.setflags(write=False)
                out.append(b)
        return out

    for s in row["script"]:
        op, o = s["op"], s["obj"]
        e = objs[o]
        rec = dict(op=op, obj=o)
        if op in ("est", "fit", "info"):
            x, y = arrays(s["data"], s["form"])
            rec.update(data=s["data"], val=0, info=0)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    if op == "fit":
                        e.fit(x, y)
                    elif op == "est":
                        rec["val"] = namer(float(e.estimate(x, y)))
                    else:
                        r = e.estimate_with_info(x, y)
                        rec["val"] = namer(float(r.mi_estimate))
                        rec["info"] = namer(("info", r.additional_information))
                        r.additional_information["scribble"] = 1
                        r.additional_information.pop("test_history", None)
                rec["ok"] = True
            except Exception:
                rec["ok"] = False
            xw, yw = data[s["data"] - 1]
            rec["same"] = (
                np.array_equal(np.asarray(x), xw, equal_nan=True) and np.array_equal(np.asarray(y), yw, equal_nan=True)
            )
        elif op == "predict":
            rec["val"] = 0
            try:
                p = e.get_predictions()
                rec["outcome"] = "ok"
                rec["val"] = namer(("pred", dict(p)))
                for k in list(p):
                    p[k] = -17.0
                if len(p) > 1:
                    p.pop(next(iter(p)))
                p[1001] = 3.0
            except notfitted:
                rec["outcome"] = "notfitted"
            except Exception:
                rec["outcome"] = "error"
        elif op == "critic":
            def digest(c):
                return [np.asarray(a) for a in jax.tree_util.tree_leaves(c)]

            c = e.trained_critic
            rec["none"] = c is None
            rec["val"] = 0 if c is None else namer(("critic", digest(c)))
            rec["held"] = all(namer(("critic", digest(h))) == v for h, v in held)
            if c is not None:
                held.append((c, rec["val"]))
        elif op == "params":
            rec["asgiven"] = repr(e.parameters()) == given[o]
        elif op == "new":
            make(o)
        elif op == "disturb":
            np.random.seed(len(ev))
            random.seed(len(ev) * 7)
            np.random.rand(3)
        elif op == "scribble":
            for b in buffers.values():
                b[...] = 9
            for v in OWNED:
                v.append(4)
                v[0] = 1
        ev.append(rec)
    small = [6] if cls in NEURAL else []
    return dict(ev=ev, cfgs=cfg, refuse=REFUSE, idle=small)


def kinds(cls):
    k = {"est", "est2", "info", "params", "disturb", "scribble", "new"}
    if cls in KSG:
        k |= {"fit", "predict"}
        k -= {"info"}
    if cls in NEURAL:
        k |= {"critic"}
    return k


def run(ctx):
    per = {c: ctx.pick(10 if c in NEURAL else 150, 120 if c in NEURAL else 2500) for c in CLASSES}
    ncfg = dict(KSG=3, KSGslow=3, Histogram=3, KDE=3, CCA=2, Functional=2, InfoNCE=4, NWJ=4, DV=4, MINE=5)
    rows = dict(
        zip(
            CLASSES,
            ctx.parallel(
                *[
                    (
                        lambda c=c, i=i: ctx.tlc(
                            "EstHist",
                            dict(Kinds=kinds(c), NData=7 if c in NEURAL else 8, NCfg=ncfg[c], MaxLen=14),
                            simulate=per[c],
                            depth=80,
                            seed=ctx.seed * 50 + i,
                            invariants=["Emit"],
                            label=f"scripts {c}",
                        ).rows
                    )
                    for i, c in enumerate(CLASSES)
                ]
            ),
        )
    )
    # short histories exhaustively: every sequence of calls of one class of each kind
    small = ctx.parallel(
        lambda: ctx.tlc("EstHist", dict(Kinds={"est", "predict", "fit"}, NData=1, NCfg=2, MaxLen=2), invariants=["Emit"], label="exhaustive, 2 calls").rows,
    )[0]
    rows["KSG"] += small
    rows["KSGslow"] += small[:: 3]

    def worker(jobs):
        def go():
            notfitted, makers = setup()
            out = []
            for c, r, i in jobs:
                t = run_history(c, r, ctx.seed * 10_000 + i, notfitted, makers[c])
                ctx.evaluations += sum(1 for e in t["ev"] if e["op"] in ("est", "fit", "info"))
                ctx.distinct.add(f"{c} {i}")
                out.append((c, r, t))
            return out

        return go

    jobs = [(c, r, i) for c in CLASSES for i, r in enumerate(rows[c])]
    cost = {c: 40 if c in NEURAL else 1 for c in CLASSES}
    cost["KSGslow"] = 3
    nw = 8
    bins = [[] for _ in range(nw)]
    load = [0] * nw
    for j in sorted(jobs, key=lambda t: -cost[t[0]]):
        k = load.index(min(load))
        bins[k].append(j)
        load[k] += cost[j[0]]
    done = [t for part in ctx.shard(*[worker(b) for b in bins if b]) for t in part]
    parts = [done[i::4] for i in range(4)]
    verdicts = ctx.parallel(*[(lambda p=p: ctx.validate_traces("EstHist", [t for _, _, t in p], dict(Kinds={"est"}, NData=8, NCfg=2, MaxLen=1))) for p in parts])
    for p, vs in zip(parts, verdicts):
        for (c, r, t), v in zip(p, vs):
            ctx.count(f"histories {c}")
            if not v["ok"]:
                ctx.report(
                    f"{c} cfgs={r['cfgs']} script={[(s['op'], s['obj'], s['data'], s['form']) for s in r['script']]}",
                    v["clause"],
                    {"at": v["at"], "event": t["ev"][v["at"] - 1], "before": t["ev"][: v["at"] - 1][-6:]},
                )
    for c in CLASSES:
        if sum(1 for cc, _, t in done if cc == c and any(e.get("ok") for e in t["ev"])) < len(rows[c]) // 2:
            raise RuntimeError(f"histories of {c} hardly ever succeed")
    ctx.samples = [{"class": c, "history": t["ev"][:4]} for c, _, t in done[:4]]
    return ctx.finish(
        "model_checking",
        [
            "histories of 14 operations on three objects of one class, eight data sets",
            "values are compared to 1e-10 (neural: 1e-5)",
            "changing the object returned by parameters() is outside the property",
        ],
        "distinct history generated by the specification, executed and decided by TLC",
    )
