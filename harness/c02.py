"""C02: Student-t ground truths against spec/Student.tla and spec/Gauss.tla."""
import math
import random

import numpy as np
from harness import gauss
from harness.lib import require, require_close, require_raises

LN2, LNPI = math.log(2.0), math.log(math.pi)


def _lg(e):
    return [0.5 * e["pi"] * LNPI] + [math.log(p) - math.log(q) for p, q in e["args"]]


def _dg(e):
    w = e["w"][0] / e["w"][1]
    t = [e["d"]["ln2"] * LN2] + [p / q for p, q in e["d"]["plus"]] + [-p / q for p, q in e["d"]["minus"]]
    return w * math.fsum(t)


def correction(c):
    t = []
    for e in c["lgplus"]:
        t += _lg(e)
    for e in c["lgminus"]:
        t += [-v for v in _lg(e)]
    t += [_dg(e) for e in c["dgplus"]] + [-_dg(e) for e in c["dgminus"]]
    return math.fsum(t)


def run(ctx):
    q = ctx.pick(1, 5)
    nu_max, dim_max = ctx.pick((30, 6), (60, 9))
    grid, big = ctx.parallel(
        lambda: ctx.tlc("Student", dict(MaxNu=nu_max, MaxDim=dim_max), invariants=["Recurrences", "Emit"]),
        lambda: ctx.tlc(
            "Student", dict(MaxNu=160, MaxDim=25), invariants=["Recurrences", "Emit"],
            simulate=6 * q, depth=200, label="long walks",
        ),
    )
    rows = gauss.rows(ctx, q, offset=50)

    from bmi.samplers import SplitMultinormal, SplitStudentT, bmm

    rng = random.Random(ctx.seed)
    f = SplitStudentT.mi_correction_function
    exact = {}
    for r in grid.rows + big.rows:
        exact[(r["nu"], r["a"], r["b"])] = (correction(r["c"]), r["factor"])

    keys = sorted(exact)
    for nu, a, b in keys:
        want, factor = exact[(nu, a, b)]

        def go():
            for df in (nu, float(nu), np.float64(nu), np.int64(nu)):
                require_close(f(df=df, dim_x=a, dim_y=b), want, "h(dx)+h(dy)-h(dx+dy)", 1e-9, 1e-10, df=repr(df))
            require_close(f(df=nu, dim_x=b, dim_y=a), want, "symmetric in the dimensions", 1e-9, 1e-10)
            if (nu + 1, a, b) in exact:
                require(exact[(nu + 1, a, b)][0] < want, "decreasing in df (specification)")
                require(f(df=nu + 1, dim_x=a, dim_y=b) < f(df=nu, dim_x=a, dim_y=b) + 1e-12, "decreasing in df")
                mid = f(df=nu + 0.5, dim_x=a, dim_y=b)
                require(
                    exact[(nu + 1, a, b)][0] - 1e-11 < mid < want + 1e-11,
                    "non-integer df lies between the neighbouring integers", df=nu + 0.5, got=mid,
                )
            require(want > 0, "positive (specification)")

        ctx.case(f"correction df={nu} dims={a},{b}", go)

    # non-integer df: even dimensions keep Gamma and psi differences rational
    def even(df, a, b):
        """Exact in df for even dims: everything telescopes over steps of one."""
        h = lambda k: (  # noqa: E731  (without the terms that cancel)
            -math.fsum(math.log(df / 2 + j) for j in range(k // 2))
            + 0.5 * (df + k) * math.fsum(1.0 / (df / 2 + j) for j in range(k // 2))
        )
        return h(a) + h(b) - h(a + b)

    for df in (0.05, 0.3, 0.5, 0.9, 1.2, 1.7, 2.5, 3.14159, 7.75, 20.3, 133.3):
        for a in (2, 4, 6):
            for b in (2, 4, 10):

                def ni():
                    require_close(f(df=df, dim_x=a, dim_y=b), even(df, a, b), "non-integer df", 1e-8, 1e-9)
                    for x, y in ((a - 1, b), (a, b - 1), (a - 1, b - 1)):
                        c1, c2 = f(df=df, dim_x=x, dim_y=y), f(df=df, dim_x=x + 1, dim_y=y)
                        require(0 < c1 < c2, "positive and increasing with the dimension", got=(c1, c2))

                ctx.case(f"df={df} even dims={a},{b}", ni)

    # large df: the correction is small, but in high dimension not negligible
    for df in (150, 201.5, 333, 999.5, 1000, 4321):
        for a, b in ((2, 2), (10, 4), (30, 30), (60, 40)):
            def large():
                t = SplitStudentT(dim_x=a, dim_y=b, df=df, dispersion=np.eye(a + b))
                want = even(df, a, b)
                require_close(t.mi_correction(), want, "large df", 1e-4, 1e-9)
                require_close(t.mutual_information(), want, "large df: Gaussian part plus correction", 1e-4, 1e-9)
                require_close(f(df=df, dim_x=a, dim_y=b), want, "large df", 1e-4, 1e-9)

            ctx.case(f"large df={df} dims={a},{b}", large)

    # whole samplers
    valid = [r for r in rows if r["class"] == "valid"]
    bad = [r for r in rows if r["class"] in ("asymmetric", "indefinite")]
    for idx, r in enumerate(valid):
        dx, dy = r["dx"], r["dy"]
        s = np.array(r["sigma"], dtype=float) * 2.0 ** rng.choice([0, 0, -9, 12])
        nu = rng.choice([1, 2, 3, 4, 5, 8, 15, 30])
        want_c, factor = exact[(nu, dx, dy)]
        want_n = gauss.half_log(r["ratio"])
        kw = dict(mean=r["mean"]) if rng.random() < 0.5 else {}
        df = rng.choice([nu, float(nu), np.float64(nu)])
        frac = rng.choice([0.7, 1.999, 2.001, 2.03, 2.2, 2.5, 3.5, 11.25, 2000.5])

        def go(bm=(idx % 10 == 0)):
            t = SplitStudentT(dim_x=dx, dim_y=dy, df=df, dispersion=s, **kw)
            require_close(t.mi_normal(), want_n, "Gaussian part", 1e-9, 1e-10)
            require_close(t.mi_correction(), want_c, "correction part", 1e-9, 1e-10)
            require_close(t.mutual_information(), want_n + want_c, "Gaussian part plus correction", 1e-9, 1e-10)
            require(t.df == nu, "df as given")
            require((t.dim_x, t.dim_y) == (dx, dy), "dimensions")
            if factor[0] == 0:
                require_raises(ValueError, t.covariance, "covariance undefined for df <= 2")
            else:
                c = np.asarray(t.covariance())
                require(np.allclose(c, s * factor[0] / factor[1], rtol=1e-12, atol=0), "covariance df/(df-2) * dispersion",
                        got=c, df=nu)
            u = SplitStudentT(dim_x=dx, dim_y=dy, df=frac, dispersion=s, **kw)
            if frac <= 2:
                require_raises(ValueError, u.covariance, "covariance undefined for df <= 2")
            else:
                require(np.allclose(u.covariance(), s * (frac / (frac - 2)), rtol=1e-12, atol=0),
                        "covariance df/(df-2) * dispersion", df=frac)
            for x in (lambda: SplitStudentT(dim_x=dx, dim_y=dy, df=np.inf, dispersion=s, **kw),):
                g = x()
                require_close(g.mutual_information(), want_n, "df = inf is the Gaussian value", 1e-9, 1e-10)
                require_close(g.mi_correction(), 0.0, "df = inf has no correction", 0, 0)
                require(np.allclose(g.covariance(), s, rtol=1e-12, atol=0), "df = inf covariance is the dispersion")
            last = None
            for big in (1e3, 1e5, 1e8, 1e12, 1e200):
                m = float(SplitStudentT(dim_x=dx, dim_y=dy, df=big, dispersion=s).mutual_information())
                require(math.isfinite(m), "finite for large df", df=big, got=m)
                require(want_n - 1e-9 <= m <= want_n + 1e-3 + (1e-3 if big > 1e6 else 0), "approaches the Gaussian value",
                        df=big, got=m, gaussian=want_n)
                last = m
            require(last is not None, "")
            for wrong in (0, -1, -0.5, 0.0, -np.inf):
                require_raises(
                    ValueError, lambda: SplitStudentT(dim_x=dx, dim_y=dy, df=wrong, dispersion=s),
                    "non-positive df is rejected", df=wrong,
                )
            if bm:
                d = bmm.MultivariateStudentDistribution(dim_x=dx, dim_y=dy, df=nu, dispersion=np.array(r["sigma"]), **kw)
                require_close(d.analytic_mi, want_n + want_c, "bend-and-mix analytic value", 3e-4, 1e-4)
                require((d.dim_x, d.dim_y) == (dx, dy), "bend-and-mix dimensions")
                require_raises(
                    ValueError,
                    lambda: bmm.MultivariateStudentDistribution(dim_x=dx, dim_y=dy, df=-1, dispersion=np.array(r["sigma"])),
                    "non-positive df is rejected (bmm)",
                )

        ctx.case(f"df={nu} dx={dx} dy={dy} disp={r['sigma']} scale={s[0, 0]} {kw}", go)

    for r in bad[::3]:
        def rej():
            require_raises(
                ValueError,
                lambda: SplitStudentT(dim_x=r["dx"], dim_y=r["dy"], df=3, dispersion=np.array(r["sigma"], dtype=float)),
                f"{r['class']} dispersion is rejected",
            )

        ctx.case(f"dispersion {r['sigma']} {r['dx']},{r['dy']}", rej)

    def shapes():
        for bad_mean in (np.zeros(2), np.zeros(4), np.zeros((3, 1))):
            require_raises(ValueError, lambda: SplitStudentT(dim_x=1, dim_y=2, df=3, dispersion=np.eye(3), mean=bad_mean),
                           "mean of the wrong shape is rejected")
        for a, b in ((1, 1), (2, 2), (0, 3), (3, 0), (-1, 4)):
            require_raises(ValueError, lambda: SplitStudentT(dim_x=a, dim_y=b, df=3, dispersion=np.eye(3)),
                           "wrong dimensions are rejected", dims=(a, b))

    ctx.case("shapes", shapes)

    # high dimension: finite, non-negative, independent of the dispersion
    for n in (40, 120, 250):
        for df in (0.5, 1, 2.5, 40):
            def hi():
                t = SplitStudentT(dim_x=n // 2, dim_y=n - n // 2, df=df, dispersion=np.diag(2.0 ** (np.arange(n) % 7)))
                m = t.mutual_information()
                require(math.isfinite(m) and m > 0, "finite and positive in high dimension", got=m)
                a, b = n // 2, n - n // 2
                if a % 2 == 0 and b % 2 == 0:
                    require_close(m, even(df, a, b), "high dimension", 1e-7, 1e-7)

            ctx.case(f"high n={n} df={df}", hi)

    # Gaussian sampler and Student with df = inf agree object by object
    def agree():
        for r in valid[:20]:
            s = np.array(r["sigma"], dtype=float)
            g = SplitMultinormal(dim_x=r["dx"], dim_y=r["dy"], covariance=s).mutual_information()
            t = SplitStudentT(dim_x=r["dx"], dim_y=r["dy"], df=math.inf, dispersion=s)
            require_close(t.mutual_information(), g, "df = inf agrees with the Gaussian sampler", 1e-9, 1e-12)

    ctx.case("agree", agree)
    return ctx.finish(
        "model_checking",
        ["exact symbolic correction for integer df <= 160 and even dimensions for other df; monotone bracketing elsewhere",
         "dispersions are integer matrices times powers of two, up to 6x6 (diagonal up to 250x250)"],
        "distinct (df, dimensions) or (df, dispersion, mean) with an exact symbolic value from the specification",
    )
