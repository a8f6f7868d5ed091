"""C07: KSG estimators against the exact integer model (spec/KSG.tla)."""
import math
import random

import numpy as np
from harness.lib import Violation, require, require_close, require_raises

DIM = "=={<<1,1>>, <<2,1>>, <<1,2>>, <<2,2>>}"
ALL = {"euclidean", "manhattan", "chebyshev"}


def harmonic(n):
    return math.fsum(1.0 / i for i in range(1, n + 1))


def estimate(row, k):
    """psi(k) + psi(N) - mean(psi(nx+1) + psi(ny+1)), all gammas cancelling."""
    n = row["cfg"]["n"]
    if row["est"]:
        a, b = row["est"][k - 1]
        return a / b
    nx, ny = row["nx"][k - 1], row["ny"][k - 1]
    s = math.fsum(harmonic(v) for v in nx + ny) / n
    return max(0.0, harmonic(k - 1) + harmonic(n - 1) - s)


def run(ctx):
    q = ctx.pick(1, 6)
    T = lambda label, sim, seed_off, **c: (  # noqa: E731
        lambda: ctx.tlc(
            "KSG",
            dict(
                Ns=set(c["Ns"]),
                DimPairs=c.get("dims", DIM),
                Coord="==%d..%d" % c["coord"],
                Metrics=ALL,
                Stds="=={%s}" % c.get("std", "FALSE"),
                Kmax=c.get("k", 4),
            ),
            invariants=["TypeOK", "CountsOK", "Emit"],
            simulate=sim,
            depth=c.get("depth", 200),
            seed=ctx.seed * 1000 + seed_off,
            label=label,
        )
    )
    jobs = [
        T("ties", 150 * q, 1, Ns=range(3, 10), coord=(0, 3)),
        T("spread", 150 * q, 2, Ns=range(4, 12), coord=(-40, 40), k=6),
        T("std-1-1", 150 * q, 3, Ns=range(3, 8), coord=(0, 20), dims="=={<<1,1>>}", std="TRUE"),
        T("std-2", 100 * q, 4, Ns=range(4, 7), coord=(0, 8), dims="=={<<2,1>>,<<1,2>>}", std="TRUE"),
        T("large", 25 * q, 5, Ns={17, 24, 31}, coord=(-200, 200), k=12, depth=300),
        T("high-dim", 40 * q, 6, Ns={6, 9}, coord=(-9, 9), dims="=={<<3,1>>,<<1,4>>,<<3,3>>}"),
    ]
    if ctx.thorough:
        # exhaustive: every data set of 3 points with coordinates 0..3, every metric
        jobs.append(
            lambda: ctx.tlc(
                "KSG",
                dict(Ns={3, 4}, DimPairs="=={<<1,1>>}", Coord="==0..2", Metrics={"euclidean"},
                     Stds="=={FALSE}", Kmax=3),
                invariants=["TypeOK", "CountsOK", "Emit"],
                label="exhaustive n<=4",
            )
        )
    else:
        jobs.append(
            lambda: ctx.tlc(
                "KSG",
                dict(Ns={3}, DimPairs="=={<<1,1>>}", Coord="==0..2", Metrics={"euclidean"},
                     Stds="=={FALSE}", Kmax=2),
                invariants=["TypeOK", "CountsOK", "Emit"],
                label="exhaustive n=3",
            )
        )
    results = ctx.parallel(*jobs)

    from bmi.estimators.ksg import KSGEnsembleFirstEstimator, KSGEnsembleFirstEstimatorSlow

    rng = random.Random(ctx.seed)
    containers = [
        ("list", lambda a: a.tolist()),
        ("int64", lambda a: a),
        ("int32", lambda a: a.astype(np.int32)),
        ("float32", lambda a: a.astype(np.float32)),
        ("float64", lambda a: a.astype(np.float64)),
        ("fortran", lambda a: np.asfortranarray(a.astype(float))),
        ("readonly", lambda a: _readonly(a.astype(float))),
        ("strided", lambda a: np.repeat(a.astype(float), 2, axis=0)[::2]),
    ]

    n_used = 0
    for res in results:
        for idx, row in enumerate(res.rows):
            cfg = row["cfg"]
            n, dx, dy = cfg["n"], cfg["dx"], cfg["dy"]
            d = dx + dy
            pts = np.array(row["flat"]).reshape(n, d)
            ks = [
                k
                for k in range(1, len(row["nx"]) + 1)
                if row["pos"][k - 1] and (not cfg["std"] or row["tiefree"][k - 1])
            ]
            if not ks:
                continue
            n_used += 1
            want = {k: estimate(row, k) for k in ks}
            std = cfg["std"]
            mx, my = cfg["mx"], cfg["my"]
            key = f"{mx}/{my} std={std} n={n} dx={dx} dy={dy} data={row['flat']}"
            plan = random.Random(rng.random())

            def draw(plan, ks):
                # single precision in one space only: distances that tie across the
                # spaces are then rounded differently, so that needs tie-freeness
                (cx, fx), (cy, fy) = plan.choice(containers), plan.choice(containers)
                if (cx == "float32") != (cy == "float32") and not all(row["tiefree"][k - 1] for k in ks):
                    cy, fy = cx, fx
                return cx, fx, cy, fy

            def go():
                ks_perm = ks[:]
                plan.shuffle(ks_perm)
                cx, fx, cy, fy = draw(plan, ks)
                x, y = fx(pts[:, :dx]), fy(pts[:, dx:])
                chunk = plan.choice([1, 2, 3, n - 1, n, n + 1, 10])
                # (a) fast, single ensemble, drawn chunk size and containers
                e = KSGEnsembleFirstEstimator(
                    neighborhoods=ks_perm, standardize=std, metric_x=mx, metric_y=my, chunk_size=chunk
                )
                mi = e.estimate(x, y)
                ctxd = dict(chunk=chunk, containers=(cx, cy), neighborhoods=ks_perm)
                mean = math.fsum(want.values()) / len(ks)
                require_close(mi, mean, "fast estimate is the mean of the KSG-1 values", 1e-9, 1e-9, **ctxd)
                _preds(e, want, "fast", ctxd)
                require(float(mi) >= 0, "non-negative", got=float(mi))
                # (b) slow implementation, other containers
                cx, fx, cy, fy = draw(plan, ks)
                s = KSGEnsembleFirstEstimatorSlow(
                    neighborhoods=tuple(ks), standardize=std, metric_x=mx, metric_y=my
                )
                require_close(
                    s.estimate(fx(pts[:, :dx]), fy(pts[:, dx:])), mean, "slow estimate is the mean of the KSG-1 values"
                )
                _preds(s, want, "slow", ctxd)
                # (c) permuted points, swapped roles, single neighborhood, every chunk size
                perm = np.array(plan.sample(range(n), n))
                k = plan.choice(ks)
                for c2 in range(1, n + 4) if n <= 8 else [1, n // 2, n - 1, n, n + 3]:
                    e2 = KSGEnsembleFirstEstimator(
                        neighborhoods=[k], standardize=std, metric_x=my, metric_y=mx, chunk_size=c2
                    )
                    require_close(
                        e2.estimate(pts[perm][:, dx:], pts[perm][:, :dx]),
                        want[k],
                        "permuted and swapped, chunk size varied",
                        chunk=c2,
                        k=k,
                    )
                # (d) metric_y defaults to metric_x; repeated neighborhoods count once
                if mx == my:
                    e3 = plan.choice([KSGEnsembleFirstEstimator, KSGEnsembleFirstEstimatorSlow])(
                        neighborhoods=ks + [ks[0]], standardize=std, metric_x=mx
                    )
                    require_close(e3.estimate(x, y), mean, "defaulted metric_y, repeated neighborhood")
                    require(e3.parameters().metric_y == mx, "metric_y defaults to metric_x")
                # (e) scaling by powers of two is exact, so standardised results stay
                if std:
                    sc = 2.0 ** np.array([plan.choice([-20, -3, 0, 5, 20]) for _ in range(d)])
                    e4 = KSGEnsembleFirstEstimator(neighborhoods=ks, standardize=True, metric_x=mx, metric_y=my)
                    z = pts * sc
                    require_close(e4.estimate(z[:, :dx], z[:, dx:]), mean, "standardised: columns rescaled",
                                  scale=sc)
                else:
                    sc = 2.0 ** plan.choice([-30, -7, 6, 25])
                    e4 = KSGEnsembleFirstEstimator(neighborhoods=ks, standardize=False, metric_x=mx, metric_y=my)
                    z = pts * sc
                    require_close(e4.estimate(z[:, :dx], z[:, dx:]), mean, "common rescaling", scale=sc)
                # (f) jobs
                if idx % 20 == 0:
                    for cls in (KSGEnsembleFirstEstimator, KSGEnsembleFirstEstimatorSlow):
                        e5 = cls(neighborhoods=ks, standardize=std, metric_x=mx, metric_y=my, n_jobs=2)
                        require_close(e5.estimate(x, y), mean, "n_jobs=2")
                # (g) too few points: one neighborhood more than possible
                if idx % 10 == 0:
                    for cls in (KSGEnsembleFirstEstimator, KSGEnsembleFirstEstimatorSlow):
                        for nb in ([n], [1, n + 1], [n + 5, 1]):
                            require_raises(
                                ValueError,
                                lambda: cls(neighborhoods=nb, standardize=False).estimate(
                                    pts[:, :dx], pts[:, dx:]
                                ),
                                "largest neighborhood needs more points",
                                neighborhoods=nb,
                                n=n,
                            )
                        if (n - 1) in ks and not std:
                            cls(neighborhoods=[n - 1], standardize=False).estimate(pts[:, :dx], pts[:, dx:])

            ctx.case(key, go, sample=row if n < 6 else None, timeout=120)
    ctx.count("data_sets_with_usable_neighborhoods", n_used)

    # Default configuration equals the documented one, and construction is validated.
    def defaults():
        for cls in (KSGEnsembleFirstEstimator, KSGEnsembleFirstEstimatorSlow):
            p = cls().parameters()
            require(list(p.neighborhoods) == [5, 10], "default neighborhoods (5, 10)")
            require(p.standardize is True, "default standardize")
            require((p.metric_x, p.metric_y) == ("euclidean", "euclidean"), "default metrics")
            for bad in ([], [0], [-1, 3], [3, 0], ()):
                require_raises(ValueError, lambda: cls(neighborhoods=bad), "neighborhoods rejected", bad=bad)
            require_raises(ValueError, lambda: cls(metric_x="cosine"), "unknown metric rejected")
            for mx in ALL:
                for my in ALL:
                    p = cls(neighborhoods=(3, 1), metric_x=mx, metric_y=my, standardize=False).parameters()
                    require(
                        (list(p.neighborhoods), p.metric_x, p.metric_y, p.standardize) == ([3, 1], mx, my, False),
                        "parameters as given",
                    )
            require_raises(
                ValueError,
                lambda: cls(neighborhoods=(1,)).estimate([[0.0], [1.0], [3.0]], [[0.0], [1.0]]),
                "arrays of different length rejected",
            )

    ctx.case("construction", defaults)
    if n_used < 200:
        raise RuntimeError(f"only {n_used} usable data sets")
    return ctx.finish(
        "model_checking",
        [
            "coordinates are integers (or powers-of-two multiples), n <= 31, dims <= 4, k <= 12",
            "neighborhoods with more than k exact copies of a point are outside the property",
            "standardised data sets with a tie at the decisive radius are skipped",
        ],
        "distinct data set and configuration whose exact counts were computed by the specification",
    )


def _readonly(a):
    a.setflags(write=False)
    return a


def _preds(e, want, who, ctxd):
    p = e.get_predictions()
    require(sorted(p) == sorted(want), f"{who}: one prediction per distinct neighborhood", got=list(p), **ctxd)
    for k, v in want.items():
        if abs(float(p[k]) - v) > 1e-9:
            raise Violation(f"{who}: prediction of neighborhood k", k=k, got=float(p[k]), want=v, **ctxd)
