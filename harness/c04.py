"""C04: sampling is a seeded, pure, correctly shaped and distributed draw.

Histories of calls are generated and validated by spec/SampleHist.tla; exact
moments of composed samplers come from spec/Compose.tla."""
import hashlib
import random

import numpy as np
from harness import compose
from harness.lib import require


def digest(*arrays):
    h = hashlib.sha1()
    for a in arrays:
        a = np.ascontiguousarray(np.asarray(a))
        h.update(str((a.dtype.str, a.shape)).encode())
        h.update(a.tobytes())
    return h.hexdigest()[:16]


FAN = 96
COV3 = [[2.0, 0.5, 0.3], [0.5, 1.5, -0.4], [0.3, -0.4, 1.0]]


def factories():
    """name -> (factory, seeds and keys equivalent)"""
    from bmi.samplers import (
        AdditiveUniformSampler,
        BivariateNormalSampler,
        DiscreteUniformMixtureSampler,
        IndependentConcatenationSampler,
        MultivariateDiscreteUniformMixtureSampler,
        SplitMultinormal,
        SplitStudentT,
        TransformedSampler,
        ZeroInflatedPoissonizationSampler,
        bmm,
    )

    def arr(a):
        return np.array(a, dtype=float)

    def mixture():
        c = [
            bmm.MultivariateNormalDistribution(dim_x=2, dim_y=1, covariance=arr(COV3), mean=arr([k, -k, 2 * k]))
            for k in (0, 4)
        ]
        return bmm.BMMSampler(bmm.mixture(np.array([0.25, 0.75]), c), mi_estimate_sample=500)

    def product():
        d = bmm.MultivariateNormalDistribution(dim_x=2, dim_y=1, covariance=arr(COV3))
        return bmm.BMMSampler(bmm.ProductDistribution(d.dist_x, d.dist_y))

    def bmmstudent():
        return bmm.BMMSampler(bmm.MultivariateStudentDistribution(dim_x=1, dim_y=2, dispersion=arr(COV3), df=5), mi=0.1)

    def student(df, dx=2):
        return lambda: SplitStudentT(dim_x=dx, dim_y=3 - dx, df=df, dispersion=arr(COV3), mean=arr([1, 2, 3]))

    out = {
        "normal": (lambda: SplitMultinormal(dim_x=1, dim_y=2, covariance=arr(COV3), mean=arr([1, 2, 3])), True),
        "bivariate": (lambda: BivariateNormalSampler(0.7, std_x=2, std_y=3, mean_x=-1, mean_y=5), True),
        "student3": (student(3), False),
        "student-frac": (student(0.8, 1), False),
        "student-inf": (student(np.inf), False),
        "uniform": (lambda: AdditiveUniformSampler(0.3), True),
        "disc": (lambda: DiscreteUniformMixtureSampler(n_discrete=4), True),
        "disc-float": (lambda: DiscreteUniformMixtureSampler(n_discrete=3, use_discrete_x=False), True),
        "multidisc": (lambda: MultivariateDiscreteUniformMixtureSampler(ns_discrete=[2, 5, 3]), True),
        "zip": (lambda: ZeroInflatedPoissonizationSampler(), True),
        "zip-float": (lambda: ZeroInflatedPoissonizationSampler(p=0.5, use_discrete_y=False), True),
        "mixture": (mixture, True),
        "product": (product, True),
        "bmmstudent": (bmmstudent, True),
        "transformed": (
            lambda: TransformedSampler(BivariateNormalSampler(0.5), transform_x=lambda v: v**3, transform_y=lambda v: v + 1),
            True,
        ),
        "concat-student": (
            lambda: IndependentConcatenationSampler([SplitStudentT(dim_x=2, dim_y=1, df=4, dispersion=arr(COV3)), AdditiveUniformSampler(1.0)]),
            True,
        ),
        "concat-nested": (
            lambda: IndependentConcatenationSampler(
                [BivariateNormalSampler(0.5), IndependentConcatenationSampler([AdditiveUniformSampler(0.2), DiscreteUniformMixtureSampler(n_discrete=3)])]
            ),
            True,
        ),
    }
    return out


def task_factories():
    try:
        import bmi.benchmark.tasks.bimodal_gaussians as bg
        from bmi.benchmark import BENCHMARK_TASKS_LIST
    except Exception:
        return {}
    picks = BENCHMARK_TASKS_LIST[:: max(1, len(BENCHMARK_TASKS_LIST) // 6)]
    del bg
    return {f"task:{t.id}": t for t in picks}


def run(ctx):
    q = ctx.pick(1, 6)
    scripts, real1, real2, wide = ctx.parallel(
        lambda: ctx.tlc(
            "SampleHist", dict(Ns={1, 2, 5}, Seeds={0, 1, 77, -77, 2**31 - 1}, MaxLen=14), invariants=["Emit"],
            simulate=120 * q, depth=60, label="call scripts",
        ).rows,
        lambda: compose.rows(ctx, "real", 90 * q, 21, max_ops=6),
        lambda: compose.rows(ctx, "real", 60 * q, 22, max_ops=2),
        lambda: compose.rows(ctx, "real", 5 * q, 23, max_ops=1, max_dim=60, wide=9),
    )
    rng = random.Random(ctx.seed)
    fac = factories()
    shared = {}
    for name, (mk, keyeq) in fac.items():
        shared[name] = mk, keyeq
    comp = [r for r in real1 if len(r["prog"]) > 2][:: max(1, len(real1) // 25)]
    for i, r in enumerate(comp):
        shared[f"expr{i}:{r['prog']}"] = (lambda r=r: compose.build(r["prog"])), True
    for name, t in task_factories().items():
        shared[name] = (lambda t=t: t), "student" not in name

    import jax

    names = sorted(shared)
    traces, meta, fanned = [], [], set()
    others = [fac["uniform"][0](), fac["student3"][0](), fac["normal"][0]()]

    def record(name, mk, keyeq, script):
        objs = [mk(), mk()]
        t = dict(name=name, keyeq=keyeq, dx=objs[0].dim_x, dy=objs[0].dim_y, ev=[])
        for o in script:
            s = objs[o["obj"] - 1]
            e = dict(op=o["op"])
            if o["op"] == "sample":
                seed = o["seed"] if keyeq or o["seed"] >= 0 else 4711  # NumPy seeds are non-negative
                rv = {"int": lambda: seed, "npint": lambda: np.int64(seed), "key": lambda: jax.random.PRNGKey(seed)}[o["form"]]()
                x, y = s.sample(o["n"], rv)
                x, y = np.asarray(x), np.asarray(y)
                e.update(
                    n=o["n"], seed=seed, form=o["form"], digest=digest(x, y), shape=list(x.shape) + list(y.shape),
                    finite=bool(np.all(np.isfinite(x)) and np.all(np.isfinite(y))),
                )
                if x.flags.writeable:  # results belong to the caller
                    x += 1 if x.dtype.kind in "iu" else 1.0
            elif o["op"] == "fan":
                # few enough draws to be quick, many enough to meet a collision in a small range of seeds
                full = (name, o["form"]) not in fanned
                fanned.add((name, o["form"]))
                count = 5 if not full else FAN if o["form"] == "key" and not keyeq else FAN // 5
                seeds = [o["seed"] + k * o["step"] for k in range(count)]
                e.update(n=o["n"], seed=o["seed"], step=o["step"], form=o["form"], digests=[])
                for v in seeds:
                    e["digests"].append(digest(*s.sample(o["n"], jax.random.PRNGKey(v) if o["form"] == "key" else v)))
            elif o["op"] == "mi":
                e["digest"] = repr(float(getattr(s, "mutual_information")() if callable(getattr(s, "mutual_information")) else s.mutual_information))
            elif o["op"] == "dims":
                e["dims"] = [int(s.dim_x), int(s.dim_y)]
            elif o["op"] == "disturb":
                np.random.seed(o["obj"])
                np.random.rand(3)
                random.random()
            else:
                others[o["obj"]].sample(3, 77)
            t["ev"].append(e)
        return t

    per = max(2, len(scripts) // len(names) + 1)
    k = 0
    for name in names:
        mk, keyeq = shared[name]
        for j in range(per):
            script = scripts[k % len(scripts)]["script"]
            k += 1
            box = {}

            def go():
                box["t"] = record(name, mk, keyeq, script)

            if ctx.case(f"record {name} #{j}", go, trace=False):
                traces.append(box["t"])
                meta.append((name, script))
    for (name, script), t, v in zip(meta, traces, ctx.validate_traces("SampleHist", traces, dict(Ns={1}, Seeds={0}, MaxLen=1))):
        ctx.distinct.add(f"{name}{script}")
        if not v["ok"]:
            ctx.report(f"history {name}", v["clause"], dict(event=t["ev"][v["at"] - 1], at=v["at"], history=t["ev"]))

    # arrays passed by the caller stay as they were; sizes from 1 upwards
    def purity():
        from bmi.samplers import SplitMultinormal, SplitStudentT, bmm

        for cls, kw in (
            (SplitMultinormal, {}),
            (SplitStudentT, dict(df=3)),
            (bmm.MultivariateNormalDistribution, {}),
            (bmm.MultivariateStudentDistribution, dict(df=4)),
        ):
            m, c = np.array([1.0, -2.0, 3.0]), np.array(COV3)
            m0, c0 = m.copy(), c.copy()
            name = "dispersion" if "Student" in cls.__name__ else "covariance"
            s = cls(dim_x=1, dim_y=2, mean=m, **{name: c}, **kw)
            for n in (1, 2, 3, 17, 100):
                rv = jax.random.PRNGKey(5)
                x, y = s.sample(n, rv)
                require(np.asarray(x).shape == (n, 1) and np.asarray(y).shape == (n, 2), "shape for every n >= 1", n=n, cls=cls.__name__)
            require(np.array_equal(m, m0) and np.array_equal(c, c0), "caller's arrays are not modified", cls=cls.__name__)

    ctx.case("purity", purity)

    # ------------------------------------------------------------ exact moments
    n = ctx.pick(20000, 100000)
    for i, r in enumerate(real1 + real2 + wide):
        if ctx.tier == "quick" and i % 2 and len(r["prog"]) > 3:
            continue
        seed = rng.randint(0, 2**31 - 1)

        def moments():
            s = compose.build(r["prog"])
            x, y = s.sample(n, seed)
            z = np.hstack([np.asarray(x, float), np.asarray(y, float)])
            require(np.all(np.isfinite(z)), "finite")
            mean = np.array([a / b for a, b in r["mean"]])
            cov = np.array([[a / b for a, b in row] for row in r["cov"]])
            sd = np.sqrt(np.maximum(np.diag(cov), 0))
            err = np.abs(z.mean(axis=0) - mean)
            bad = err > 7 * sd / np.sqrt(n) + 1e-4 * (1 + np.abs(mean))
            require(not bad.any(), "sample mean is the declared mean", got=z.mean(axis=0), want=mean, n=n, seed=seed)
            w = z - mean
            for a in range(w.shape[1]):
                p = w * w[:, [a]]
                tol = 7 * np.maximum(p.std(axis=0), sd * sd[a]) / np.sqrt(n) + 2e-4 * (1 + sd * sd[a])
                e = np.abs(p.mean(axis=0) - cov[a])
                require(not (e > tol).any(), "sample covariance is the declared covariance (pairing, independence of components)",
                        row=a, got=p.mean(axis=0), want=cov[a], n=n, seed=seed)

        ctx.case(f"moments {r['prog']}", moments, sample=r if i < 2 else None)

    # -------------------------------------------- distributions of the leaves
    from scipy import stats

    from bmi.samplers import (
        AdditiveUniformSampler,
        BivariateNormalSampler,
        DiscreteUniformMixtureSampler,
        SplitMultinormal,
        SplitStudentT,
        ZeroInflatedPoissonizationSampler,
        bmm,
    )

    P = 1e-9

    def ks(v, cdf, what, **d):
        pv = stats.kstest(np.asarray(v, float).ravel(), cdf).pvalue
        require(pv > P, f"{what}: declared distribution", pvalue=float(pv), **d)

    def uncorrelated(a, b, what):
        a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
        c = np.corrcoef(stats.rankdata(a), stats.rankdata(b))[0, 1]
        require(abs(c) < 7 / np.sqrt(len(a)), f"{what}: independent parts are uncorrelated", got=float(c))
        c = np.corrcoef((stats.rankdata(a) - len(a) / 2) ** 2, (stats.rankdata(b) - len(a) / 2) ** 2)[0, 1]
        require(abs(c) < 7 / np.sqrt(len(a)), f"{what}: independent parts are uncorrelated (scale)", got=float(c))

    for rep in range(ctx.pick(3, 12)):
        seed = rng.randint(0, 2**31 - 1)

        def dists():
            rr = np.random.default_rng(seed)
            for eps in (0.002, 0.1, 0.5, 0.8, 3.0, 700.0):
                x, y = map(np.asarray, AdditiveUniformSampler(eps).sample(n, seed))
                require(x.min() >= 0 and x.max() <= 1, "uniform: X in [0, 1]")
                require(np.abs(y - x).max() <= eps * (1 + 1e-5) + 2e-7, "uniform: |Y - X| <= epsilon", eps=eps)
                ks(x, stats.uniform(0, 1).cdf, "uniform X")
                ks(y - x, stats.uniform(-eps, 2 * eps).cdf, "uniform noise", eps=eps)
                uncorrelated(x, y - x, "uniform")
            for m in (1, 2, 7, 300):
                for disc in (True, False):
                    s = DiscreteUniformMixtureSampler(n_discrete=m, use_discrete_x=disc)
                    x, y = map(np.asarray, s.sample(n, seed))
                    require((x.dtype.kind in "iu") == disc, "discrete: X is an integer exactly when asked for", dtype=str(x.dtype))
                    require(set(np.unique(x)) <= set(range(m)), "discrete: X in 0..m-1")
                    cnt = np.bincount(x.ravel().astype(int), minlength=m)
                    if m > 1:
                        require(stats.chisquare(cnt).pvalue > P, "discrete: X uniform", counts=cnt)
                    require((y - x).min() >= -1e-4 and (y - x).max() <= 2 + 1e-4, "discrete: Y - X in [0, 2]")
                    ks(y - x, stats.uniform(0, 2).cdf, "discrete noise", m=m)
                    if m > 1:
                        uncorrelated(x, y - x, "discrete")
            for p in (0.0, 0.01, 0.15, 0.6, 0.97):
                for disc in (True, False):
                    s = ZeroInflatedPoissonizationSampler(p=p, use_discrete_y=disc)
                    x, y = map(np.asarray, s.sample(n, seed))
                    require((y.dtype.kind in "iu") == disc, "Poissonization: Y is an integer exactly when asked for", dtype=str(y.dtype))
                    ks(x, stats.expon.cdf, "Poissonization X")
                    require(np.all(y >= 0) and np.all(y == np.round(y)), "Poissonization: counts")
                    # Poisson(Exp(1)) is geometric: P(k) = 2^-(k+1)
                    want = np.array([(1 - p) * 2.0 ** -(k + 1) + (p if k == 0 else 0) for k in range(8)])
                    want = np.append(want, 1 - want.sum())
                    cnt = np.bincount(np.minimum(y.ravel().astype(int), 8), minlength=9)
                    require(stats.chisquare(cnt, want * n).pvalue > P, "Poissonization: marginal of Y", counts=cnt, want=want * n)
                    for lo, hi in ((0, 0.3), (0.3, 1), (1, 2), (2, 50)):
                        sel = (x >= lo) & (x < hi)
                        z = (y[sel] == 0).mean()
                        w = (p + (1 - p) * np.exp(-x[sel])).mean()
                        require(abs(z - w) < 7 / np.sqrt(sel.sum()), "Poissonization: P(Y = 0 | X)", got=float(z), want=float(w), p=p)
            a = rr.normal(size=(4, 4))
            unit = [1.0, 0.02, 300.0][rep % 3]  # also small and large scales
            cov = (a @ a.T + np.eye(4)) * unit**2
            mu = rr.normal(size=4) * 3 * unit
            ch = np.linalg.inv(np.linalg.cholesky(cov))
            for dx in (1, 2, 3):
                smp = {
                    "normal": SplitMultinormal(dim_x=dx, dim_y=4 - dx, covariance=cov, mean=mu),
                    "bmm normal": bmm.BMMSampler(bmm.MultivariateNormalDistribution(dim_x=dx, dim_y=4 - dx, covariance=cov, mean=mu)),
                    "student inf": SplitStudentT(dim_x=dx, dim_y=4 - dx, dispersion=cov, mean=mu, df=np.inf),
                }
                for df in (0.9, 2.5, 6):
                    smp[f"student {df}"] = SplitStudentT(dim_x=dx, dim_y=4 - dx, dispersion=cov, mean=mu, df=df)
                    smp[f"bmm student {df}"] = bmm.BMMSampler(
                        bmm.MultivariateStudentDistribution(dim_x=dx, dim_y=4 - dx, dispersion=cov, mean=mu, df=df), mi=0.0)
                for name, s in smp.items():
                    x, y = s.sample(n, seed % 1000)
                    z = (np.hstack([np.asarray(x, float), np.asarray(y, float)]) - mu) @ ch.T
                    df = float(name.split()[-1]) if "student" in name else np.inf
                    one = stats.norm if np.isinf(df) else stats.t(df)
                    for c in range(4):
                        ks(z[:, c], one.cdf, name, coordinate=c, dx=dx)
                    d2 = (z**2).sum(axis=1)
                    if np.isinf(df):
                        ks(d2, stats.chi2(4).cdf, name + " radius", dx=dx)
                    else:
                        ks(d2 / 4, stats.f(4, df).cdf, name + " radius", dx=dx)
                    uncorrelated(z[:-1, 0], z[1:, 0], name + " rows")
            b = BivariateNormalSampler(-0.6, std_x=0.5, std_y=3.0, mean_x=2.0, mean_y=-7.0)
            x, y = map(np.asarray, b.sample(n, seed))
            u, v = (x - 2) / 0.5, (y + 7) / 3
            ks(u, stats.norm.cdf, "bivariate X")
            ks((v + 0.6 * u) / 0.8, stats.norm.cdf, "bivariate Y given X")
            uncorrelated(u, v + 0.6 * u, "bivariate")

        ctx.case(f"distributions seed={seed}", dists, timeout=400)

    return ctx.finish(
        "model_checking",
        [
            "reproducibility is decided on recorded histories; distributions by exact moments (7 sigma) and goodness of fit (p > 1e-9) of finite samples",
            "an integer seed and the JAX key made from it are compared only for samplers built from JAX randomness",
        ],
        "distinct call history or sampler expression",
    )
