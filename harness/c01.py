"""C01: Gaussian ground truths against spec/Gauss.tla and spec/Correlation.tla."""
import math
import random

import numpy as np
from harness import gauss
from harness.lib import require, require_close, require_raises


def run(ctx):
    q = ctx.pick(1, 8)
    rows = gauss.rows(ctx, q)
    corr = ctx.tlc(
        "Correlation",
        dict(
            Dens={1, 2, 5, 10, 97, 1000} if not ctx.thorough else {1, 2, 3, 5, 10, 97, 500, 1000},
            Stds="=={<<1,1>>, <<1,8>>, <<3,1>>, <<0,1>>, <<-2,1>>, <<7,10>>, <<1,3>>, <<13,10>>}",
            Means="=={0, -5, 7}" if ctx.thorough else "=={0, -5}",
        ),
        invariants=["Agree", "Emit"],
    ).rows

    from bmi.samplers import BivariateNormalSampler, SplitMultinormal, bmm

    rng = random.Random(ctx.seed)
    Normal = bmm.MultivariateNormalDistribution

    for idx, r in enumerate(rows):
        dx, dy, cls = r["dx"], r["dy"], r["class"]
        s, mean = r["sigma"], r["mean"]
        if cls == "singular":
            ctx.count("singular_skipped")
            continue
        ctx.count(cls)
        key = f"dx={dx} dy={dy} cov={s} mean={mean}"
        # alternative representations of the same covariance
        scale = 2.0 ** rng.choice([0, 0, -24, -8, 9, 30])
        arr = rng.choice(
            [
                lambda m: m,
                lambda m: np.array(m),
                lambda m: np.array(m, dtype=float) * scale,
                lambda m: (np.array(m, dtype=float) * scale).tolist(),
                lambda m: np.asfortranarray(np.array(m, dtype=float) * scale),
            ]
        )
        if cls == "valid" and rng.random() < 0.25:  # other units, the same or one per coordinate
            if rng.random() < 0.5:
                units = np.full(len(s), 2.0 ** rng.choice([-45, -35, -20, 20, 35]))
            else:
                units = np.array([2.0 ** rng.randint(-6, 6) for _ in s])
            arr = lambda m: np.array(m, dtype=float) * units[:, None] * units[None, :]  # noqa: E731
        with_mean = rng.random() < 0.6

        def go(bm=(idx % 12 == 0)):
            kw = dict(mean=mean) if with_mean else {}
            if cls != "valid":
                require_raises(
                    ValueError,
                    lambda: SplitMultinormal(dim_x=dx, dim_y=dy, covariance=arr(s), **kw),
                    f"{cls} covariance is rejected",
                )
                if bm:
                    require_raises(
                        ValueError,
                        lambda: Normal(dim_x=dx, dim_y=dy, covariance=np.array(s, dtype=float)),
                        f"{cls} covariance is rejected (bmm)",
                    )
                return
            want = gauss.half_log(r["ratio"])
            c = arr(s)
            before = np.array(c, copy=True)
            sam = SplitMultinormal(dim_x=dx, dim_y=dy, covariance=c, **kw)
            require((sam.dim_x, sam.dim_y, sam.dim_total) == (dx, dy, dx + dy), "dimensions")
            mi = sam.mutual_information()
            require_close(mi, want, "1/2 log det(S_x)det(S_y)/det(S_xy)", 1e-9, 1e-10, history=r["hist"])
            require(mi >= 0, "non-negative", got=mi)
            require(np.array_equal(np.array(c), before), "argument not modified")
            require_close(sam.mutual_information(), want, "second call", 1e-9, 1e-10)
            if isinstance(c, np.ndarray) and idx % 3 == 0:
                c[:] = -1.0 if c.dtype == float else -1  # later changes by the caller are irrelevant
                require_close(sam.mutual_information(), want, "caller's array changed afterwards", 1e-9, 1e-10)
            if bm:
                for cov in (np.array(s, dtype=float), s):
                    d = Normal(dim_x=dx, dim_y=dy, covariance=cov, **kw)
                    require_close(d.analytic_mi, want, "bend-and-mix analytic value", 3e-4, 1e-4)
                    require((d.dim_x, d.dim_y) == (dx, dy), "bend-and-mix dimensions")
                    require(float(d.analytic_mi) >= 0, "bend-and-mix non-negative")

        ctx.case(key, go, sample=r if idx < 3 else None)

    # wrong shapes of everything
    valid = [r for r in rows if r["class"] == "valid" and r["dx"] + r["dy"] >= 2]
    for r in valid[:: max(1, len(valid) // 40)]:
        dx, dy, n = r["dx"], r["dy"], r["dx"] + r["dy"]
        s = np.array(r["sigma"], dtype=float)

        def shapes():
            for cls in (SplitMultinormal, Normal):
                for bad_mean in (np.zeros(n - 1), np.zeros(n + 1), np.zeros((n, 1)), np.zeros((1, n)), 0.0):
                    require_raises(
                        ValueError,
                        lambda: cls(dim_x=dx, dim_y=dy, covariance=s, mean=bad_mean),
                        "mean of the wrong shape is rejected", cls=cls.__name__, shape=np.shape(bad_mean),
                    )
                for a, b in ((dx + 1, dy), (dx, dy + 1), (dx - 1, dy) if dx > 1 else (dx, dy + 2)):
                    require_raises(
                        ValueError,
                        lambda: cls(dim_x=a, dim_y=b, covariance=s),
                        "dimensions that do not add up are rejected", cls=cls.__name__, dims=(a, b),
                    )
                for bad in (s[:-1], s[:, :-1], s[0], s[None], 1.0):
                    require_raises(
                        ValueError,
                        lambda: cls(dim_x=dx, dim_y=dy, covariance=bad, mean=np.zeros(n)),
                        "covariance of the wrong shape is rejected", cls=cls.__name__, shape=np.shape(bad),
                    )
                for i in range(n):  # a constant coordinate: an eigenvalue is exactly zero
                    flat = s.copy()
                    flat[i, :] = flat[:, i] = 0
                    require_raises(
                        ValueError,
                        lambda: cls(dim_x=dx, dim_y=dy, covariance=flat),
                        "singular covariance is rejected", cls=cls.__name__, covariance=flat,
                    )
                for a, b in ((0, n), (n, 0), (-1, n + 1), (n + 1, -1)):
                    require_raises(
                        ValueError,
                        lambda: cls(dim_x=a, dim_y=b, covariance=s),
                        "non-positive dimension is rejected", cls=cls.__name__, dims=(a, b),
                    )

        ctx.case(f"shapes of {r['sigma']} {dx},{dy}", shapes)

    # high dimension: m independent copies of one specified block, columns shuffled, rescaled
    for j, r in enumerate(valid[:: max(1, len(valid) // 25)]):
        dx, dy = r["dx"], r["dy"]
        s = np.array(r["sigma"], dtype=float)
        m = rng.choice([5, 20, 60 // (dx + dy), 120 // (dx + dy)])
        e = rng.choice([-16, 0, 12])
        prng = np.random.default_rng(ctx.seed + j)

        def high():
            big = np.kron(np.eye(m), s)
            px = [b * (dx + dy) + i for b in range(m) for i in range(dx)]
            py = [b * (dx + dy) + dx + i for b in range(m) for i in range(dy)]
            px, py = prng.permutation(px), prng.permutation(py)
            p = np.concatenate([px, py])
            big = big[np.ix_(p, p)] * 2.0**e
            want = m * gauss.half_log(r["ratio"])
            got = SplitMultinormal(dim_x=m * dx, dim_y=m * dy, covariance=big).mutual_information()
            require_close(got, want, "m independent copies have m times the value", 1e-8, 1e-8, m=m, scale=e)

        ctx.case(f"{m} copies scale 2^{e} of dx={dx} {r['sigma']}", high)

    for r in corr:
        rho = r["p"] / r["q"]
        sx, sy = r["sx"][0] / r["sx"][1], r["sy"][0] / r["sy"][1]

        def bi():
            kw = dict(correlation=rho, std_x=sx, std_y=sy, mean_x=r["mx"], mean_y=float(r["my"]))
            if not r["ok"]:
                require_raises(ValueError, lambda: BivariateNormalSampler(**kw), "invalid parameters are rejected")
                return
            b = BivariateNormalSampler(**kw)
            want = gauss.half_log(r["ratio"])
            require_close(b.mutual_information(), want, "-1/2 log(1 - rho^2)", 1e-9, 1e-12)
            require_close(b.correlation(), rho, "correlation()", 0, 0)
            require((b.dim_x, b.dim_y) == (1, 1), "dimensions")

        ctx.case(f"rho={r['p']}/{r['q']} sx={r['sx']} sy={r['sy']} m={r['mx']},{r['my']}", bi)

    for extreme in (0.999999, -0.9999999, 1e-6, -1e-9):
        def ex():
            b = BivariateNormalSampler(correlation=extreme).mutual_information()
            want = -0.5 * (math.log1p(extreme) + math.log1p(-extreme))
            require_close(b, want, "-1/2 log(1 - rho^2)", 1e-6, 1e-15)
            g = SplitMultinormal(dim_x=1, dim_y=1, covariance=[[1, extreme], [extreme, 1]])
            require_close(g.mutual_information(), want, "general sampler agrees", 1e-6, 1e-12)

        ctx.case(f"extreme rho={extreme}", ex)

    return ctx.finish(
        "model_checking",
        [
            "covariances are integer matrices (times powers of two), up to 6x6 exactly and 120x120 by independent copies",
            "exactly singular positive semi-definite matrices are skipped (not decidable in floating point)",
        ],
        "distinct covariance/mean/dimensions produced by the specification (exact determinants)",
    )
