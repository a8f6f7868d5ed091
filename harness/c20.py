"""C20: bend-and-mix models against spec/Mixtures.tla."""
import itertools
import math
import random

import numpy as np
from harness.lib import require, require_close, require_raises


def frac(q):
    return q[0] / q[1]


def run(ctx):
    k = ctx.pick(1, 10)
    parts = ctx.parallel(*[
        (lambda s=s, ml=ml, mo=mo: ctx.tlc("Mixtures", dict(MaxLeaves=ml, MaxOps=mo), invariants=["Laws", "Emit"], simulate=110 * k, depth=90,
                                           seed=ctx.seed * 10 + s, label=f"{ml} leaves, {mo} operations").rows)
        for s, ml, mo in ((1, 1, 2), (2, 2, 2), (3, 3, 3), (4, 3, 5), (5, 4, 5))
    ])
    rows, seen = [], set()
    for p in parts:
        for r in p:
            key = str(r["op"])
            if key not in seen:
                seen.add(key)
                rows.append(r)
    rng = random.Random(ctx.seed)
    rng.shuffle(rows)
    rows = rows[: ctx.pick(160, 1600)]
    W = 6
    ctx.shard(*[(lambda w=w: replay(ctx, rows[w::W])) for w in range(W)], lambda: continuous(ctx, 0), lambda: continuous(ctx, 1))
    return ctx.finish(
        "model_checking",
        ["discrete components on integer points (every density value and pointwise mutual information exact, denominators powers of two)",
         "Gaussian and Student components, products and smooth bijections are compared with double-precision densities written from the same algebra"],
        "distinct model expressions built by TLC behaviours, evaluated on the whole grid of marginal points",
    )


def replay(ctx, rows):
    import jax
    import jax.numpy as jnp
    from bmi.samplers import bmm
    from tensorflow_probability.substrates import jax as tfp

    tfd, tfb = tfp.distributions, tfp.bijectors

    class Table(tfd.Distribution):
        """Distribution on finitely many points of R^d."""

        def __init__(self, points, probs):
            pad = 8 - len(points)  # fixed sizes: fewer compilations
            self._pts = jnp.asarray(np.concatenate([np.asarray(points, dtype=np.float32), np.full((pad, len(points[0])), 1e6, dtype=np.float32)]))
            self._pr = jnp.asarray(np.concatenate([np.asarray(probs, dtype=np.float32), np.zeros(pad, dtype=np.float32)]))
            super().__init__(dtype=jnp.float32, reparameterization_type=tfd.NOT_REPARAMETERIZED, validate_args=False, allow_nan_stats=True,
                             parameters=dict(points=points, probs=probs), name="Table")

        @classmethod
        def _parameter_properties(cls, dtype, num_classes=None):
            return {}

        def _batch_shape(self):
            return tfp.tf2jax.TensorShape([])

        def _batch_shape_tensor(self, **kw):
            return jnp.asarray([], dtype=jnp.int32)

        def _event_shape(self):
            return tfp.tf2jax.TensorShape([self._pts.shape[1]])

        def _event_shape_tensor(self):
            return jnp.asarray([self._pts.shape[1]], dtype=jnp.int32)

        def _sample_n(self, n, seed=None, **kw):
            return self._pts[jax.random.choice(seed, self._pts.shape[0], shape=(int(n),), p=self._pr)]

        def _log_prob(self, x):
            hit = jnp.all(x[..., None, :] == self._pts, axis=-1)
            return jnp.log(jnp.sum(hit * self._pr, axis=-1))

    def bij(f, d, choose):
        if f == "id":
            return choose([None, tfb.Identity()])
        if f == "shift":
            return tfb.Shift(jnp.arange(1, d + 1, dtype=jnp.float32))
        if f == "negate":
            return tfb.Scale(-1.0)
        if f == "double":
            return choose([tfb.Scale(2.0), tfb.ScaleMatvecDiag(2.0 * jnp.ones(d))])
        if f == "reverse":
            return tfb.Permute(np.arange(d)[::-1].copy())
        if f == "cumsum":
            return tfb.Cumsum()
        return tfb.Chain([tfb.Shift(-1.0), tfb.Scale(4.0)])

    def build(op, mi, choose):
        """The model of an expression.  `mi`: analytic value for leaves."""
        if op[0] == "leaf":
            cells = [(tuple(c[0]), tuple(c[1]), frac(c[2])) for c in op[1]]
            px, py = {}, {}
            for a, b, p in cells:
                px[a] = px.get(a, 0) + p
                py[b] = py.get(b, 0) + p
            dx, dy = len(cells[0][0]), len(cells[0][1])
            return bmm.JointDistribution(
                dist_joint=Table([a + b for a, b, _ in cells], [p for *_, p in cells]), dist_x=Table(list(px), list(px.values())),
                dist_y=Table(list(py), list(py.values())), dim_x=dx, dim_y=dy, analytic_mi=mi)
        if op[0] == "mix":
            w = [frac(v) for v in op[1]]
            comps = [build(o, mi, choose) for o in op[2]]
            return bmm.mixture(proportions=choose([w, tuple(w), np.asarray(w), jnp.asarray(w)]), components=choose([comps, tuple(comps)]))
        if op[0] == "indep":
            a, b = build(op[1], mi, choose), build(op[2], mi, choose)
            return bmm.ProductDistribution(a.dist_x, b.dist_y)
        _, f, g, o = op
        m = build(o, mi, choose)
        kw = {}
        fx, fy = bij(f, m.dim_x, choose), bij(g, m.dim_y, choose)
        if fx is not None or choose([True, False]):
            kw["x_transform"] = fx
        if fy is not None or choose([True, False]):
            kw["y_transform"] = fy
        return bmm.transform(m, **kw)

    for r in rows:
        key = str(r["op"])[:500]
        sub = random.Random(f"{ctx.seed}-{key}")
        # drawn outside the case so that the interpretation does not depend on it
        choice = sub.choice

        def go(r=r, choice=choice):
            mi = frac(r["mi"][0]) if r["mi"] else None
            leaf_mi = mi if mi not in (None, 0.0) else None
            m = build(r["op"], leaf_mi, choice)
            require(isinstance(m, bmm.JointDistribution), "combining models gives a model")
            require((m.dim_x, m.dim_y) == (r["dx"], r["dy"]), "dimensions of the model", got=(m.dim_x, m.dim_y))
            if mi is None:
                require(m.analytic_mi is None, "no analytic value is known", got=m.analytic_mi)
            else:
                require_close(m.analytic_mi, mi, "analytic value is kept")
            J = {(tuple(a[0]), tuple(a[1])): (frac(p), frac(q)) for a, p, q in r["J"]}
            PX = {tuple(a): (frac(p), frac(q)) for a, p, q in r["PX"]}
            PY = {tuple(a): (frac(p), frac(q)) for a, p, q in r["PY"]}
            # densities and pointwise mutual information on the whole grid of marginal points
            grid = list(itertools.product(PX, PY))
            grid = grid + [grid[0]] * (-len(grid) % 40)
            X = jnp.asarray([a for a, _ in grid], dtype=jnp.float32)
            Y = jnp.asarray([b for _, b in grid], dtype=jnp.float32)
            with np.errstate(divide="ignore"):
                lj = np.log([J.get(c, (0, 0))[1] for c in grid])
                lx = np.log([PX[a][1] for a, _ in grid])
                ly = np.log([PY[b][1] for _, b in grid])
            got_j = np.asarray(m.dist_joint.log_prob(jnp.hstack([X, Y])), dtype=float)
            got_x = np.asarray(m.dist_x.log_prob(X), dtype=float)
            got_y = np.asarray(m.dist_y.log_prob(Y), dtype=float)
            for got, want, what in ((got_j, lj, "joint density"), (got_x, lx, "density of X"), (got_y, ly, "density of Y")):
                require(np.allclose(got, want, rtol=1e-5, atol=2e-5), what, got=got[:6], want=want[:6])
            got = np.asarray(m.pmi(X, Y), dtype=float)
            require(got.shape == (len(grid),), "one value per point", got=got.shape)
            require(np.allclose(got, lj - (lx + ly), rtol=1e-5, atol=5e-5), "pointwise mutual information is log p(x,y) - log p(x) - log p(y)",
                    got=got[:8], want=(lj - lx - ly)[:8])
            # law of the samples
            n = 1500
            xs, ys = m.sample(n, jax.random.PRNGKey(sub.randrange(10**6)))
            xs, ys = np.asarray(xs), np.asarray(ys)
            require(xs.shape == (n, r["dx"]) and ys.shape == (n, r["dy"]), "shape of samples", got=(xs.shape, ys.shape))
            counts = {}
            for a, b in zip(map(tuple, xs.tolist()), map(tuple, ys.tolist())):
                c = (tuple(int(v) for v in a), tuple(int(v) for v in b))
                require(all(float(v).is_integer() for v in a + b) and J.get(c, (0, 0))[0] > 0, "samples are in the support of the joint law", point=(a, b))
                counts[c] = counts.get(c, 0) + 1
            for c, (p, _) in J.items():
                require(abs(counts.get(c, 0) / n - p) <= 6.5 * math.sqrt(p * (1 - p) / n) + 3 / n, "frequencies of samples", point=c, got=counts.get(c, 0) / n, p=p)
            # profile, Monte Carlo
            kk = jax.random.PRNGKey(sub.randrange(10**6))
            n = sub.choice([1, 2, 50, 400])
            sx, sy = m.sample(n, kk)
            prof = np.asarray(bmm.pmi_profile(key=kk, dist=m, n=n), dtype=float)
            require(prof.shape == (n,) and np.allclose(prof, np.asarray(m.pmi(sx, sy)), atol=1e-5, equal_nan=True),
                    "profile is the pointwise mutual information of the sample drawn with the key", n=n)
            exact = np.asarray([math.log(J[c][1] / (PX[c[0]][1] * PY[c[1]][1])) for c in
                                ((tuple(int(v) for v in a), tuple(int(v) for v in b)) for a, b in zip(np.asarray(sx).tolist(), np.asarray(sy).tolist()))])
            require(np.allclose(prof, exact, atol=5e-5), "profile is exact at the sampled points")
            est, se = bmm.monte_carlo_mi_estimate(key=kk, dist=m, n=n)
            require_close(est, exact.mean(), "estimate is the mean of the profile", 1e-5, 5e-5)
            require_close(se, exact.std() / math.sqrt(n), "standard error is std / sqrt(n)", 1e-4, 5e-5)
            for bad in (0, -1, -7):
                require_raises(ValueError, lambda: m.sample(bad, kk), "sample sizes below 1 are refused", n=bad)
                require_raises(ValueError, lambda: bmm.pmi_profile(key=kk, dist=m, n=bad), "sample sizes below 1 are refused", n=bad)
                require_raises(ValueError, lambda: bmm.BMMSampler(m, mi_estimate_sample=bad), "Monte-Carlo sample sizes below 1 are refused", n=bad)
            # wrapper
            seed = sub.randrange(1000)
            given = sub.choice([None, None, 0.0, 0.5])
            s = bmm.BMMSampler(dist=m, mi=given, mi_estimate_seed=sub.choice([seed, jax.random.PRNGKey(seed)]), mi_estimate_sample=n)
            want = given if given is not None else max(0.0, float(bmm.monte_carlo_mi_estimate(key=jax.random.PRNGKey(seed), dist=m, n=n)[0]))
            for i in range(3):
                require_close(s.mutual_information(), want, "sampler reports the given value or else the Monte-Carlo estimate of its seed and size", 1e-6, 1e-6, call=i, given=given)
                ax, ay = s.sample(7, seed + i)
                bx, by = m.sample(7, jax.random.PRNGKey(seed + i))
                require(np.array_equal(ax, bx) and np.array_equal(ay, by), "sampler draws from the model")
            require((s.dim_x, s.dim_y, s.dim_total) == (r["dx"], r["dy"], r["dx"] + r["dy"]), "sampler has the dimensions of the model")
            # refused combinations
            others = [build(o["op"], None, choice) for o in r["below"] if (o["dx"], o["dy"]) != (r["dx"], r["dy"])]
            for o in others:
                require_raises(ValueError, lambda: bmm.mixture([0.5, 0.5], [m, o]), "components of different dimensions are refused",
                               a=(m.dim_x, m.dim_y), b=(o.dim_x, o.dim_y))
                require_raises(ValueError, lambda: bmm.mixture([0.25, 0.25, 0.5], [m, m, o]), "components of different dimensions are refused")
            for w in ([1.0], [0.5, 0.25, 0.25], [0.25] * 4):
                require_raises(ValueError, lambda: bmm.mixture(w, [m, m]), "wrong number of proportions is refused", proportions=w)

        ctx.case(key, go, sample=dict(op=r["op"], dx=r["dx"], dy=r["dy"]))
        ctx.count(r["op"][0])



def continuous(ctx, part):
    """The same algebra over Gaussian and Student leaves (double precision)."""
    import jax
    import jax.numpy as jnp
    from bmi.samplers import bmm
    from scipy import stats
    from tensorflow_probability.substrates import jax as tfp

    tfb = tfp.bijectors
    nr = np.random.default_rng(2 * ctx.seed + part)
    rng = random.Random(2 * ctx.seed + part)
    MAPS = {
        "id": (lambda: tfb.Identity(), lambda x: x, lambda x: np.zeros(len(x))),
        "sinh": (lambda: tfb.Sinh(), np.sinh, lambda x: np.log(np.cosh(x)).sum(1)),
        "exp": (lambda: tfb.Exp(), np.exp, lambda x: x.sum(1)),
        "softplus": (lambda: tfb.Softplus(), lambda x: np.logaddexp(0, x), lambda x: -np.logaddexp(0, -x).sum(1)),
        "scale": (lambda: tfb.Scale(-3.0), lambda x: -3 * x, lambda x: np.full(len(x), math.log(3) * x.shape[1])),
        "sigmoid": (lambda: tfb.Sigmoid(), lambda x: 1 / (1 + np.exp(-x)), lambda x: (-np.logaddexp(0, x) - np.logaddexp(0, -x)).sum(1)),
    }

    def leaf(dx, dy):
        d = dx + dy
        a = nr.integers(-2, 3, size=(d, d))
        cov = (a @ a.T + np.eye(d)).astype(float)
        mean = nr.integers(-2, 3, size=d).astype(float)
        df = rng.choice([None, None, 1, 3, 7])
        u, v = slice(0, dx), slice(dx, d)

        def dist(s):
            if df is None:
                return stats.multivariate_normal(mean[s], cov[s, s])
            return stats.multivariate_t(mean[s], cov[s, s], df=df)

        kw = {} if rng.random() < 0.3 and not mean.any() else dict(mean=rng.choice([mean, mean.tolist(), mean.astype(int)]))
        c = rng.choice([cov, cov.tolist()])
        if df is None:
            m = bmm.MultivariateNormalDistribution(dim_x=dx, dim_y=dy, covariance=c, **kw)
            mi = 0.5 * math.log(np.linalg.det(cov[u, u]) * np.linalg.det(cov[v, v]) / np.linalg.det(cov))
        else:
            m = bmm.MultivariateStudentDistribution(dim_x=dx, dim_y=dy, df=df, dispersion=c, **kw)
            mi = m.analytic_mi  # the value itself is C02's subject
        full = slice(0, d)
        dj, dX, dY = dist(full), dist(u), dist(v)
        at = lambda dd: (lambda p: np.atleast_1d(dd.logpdf(p)))  # noqa: E731
        return m, mi, at(dj), at(dX), at(dY), lambda x, y: (x, y), (lambda: nr.multivariate_normal(mean, cov, size=6))

    for t in range(ctx.pick(20, 150)):
        dx, dy = rng.choice([(1, 1), (2, 1), (1, 3), (2, 2)])
        depth = rng.choice([0, 1, 1, 2])

        def go():
            # expression: mixture of (possibly bent) leaves, then bent, then possibly mixed with an independent product
            K = rng.choice([1, 2, 3])
            leaves = [leaf(dx, dy) for _ in range(K)]
            w = nr.dirichlet(np.ones(K) * 2)
            from scipy.special import logsumexp

            if K == 1:
                m, mi = leaves[0][0], leaves[0][1]
                require_close(m.analytic_mi, mi, "analytic value of the component", 1e-4, 1e-4)
                dens = leaves[0][2:5]
            else:
                m, mi = bmm.mixture(w, [lf[0] for lf in leaves]), None
                mk = lambda i: (lambda p: logsumexp(np.stack([np.log(w[k]) + leaves[k][i](p) for k in range(K)]), axis=0))  # noqa: E731
                dens = [mk(2), mk(3), mk(4)]
            pts = np.concatenate([lf[6]() for lf in leaves])
            pts = np.clip(pts, -4, 4)
            X, Y = pts[:, :dx], pts[:, dx:]
            lj, lx, ly = dens[0](pts), dens[1](X), dens[2](Y)
            base_pmi = lj - lx - ly
            for _ in range(depth):
                f, g = rng.choice(list(MAPS)), rng.choice(list(MAPS))
                if max(np.abs(X).max(), np.abs(Y).max()) > 5:
                    f = g = "scale"
                # strings of saturating maps lose precision; keep the last one only once
                (bf, ff, jf), (bg, fg, jg) = MAPS[f], MAPS[g]
                kw = {}
                if f != "id" or rng.random() < 0.5:
                    kw["x_transform"] = bf()
                if g != "id" or rng.random() < 0.5:
                    kw["y_transform"] = bg()
                m = bmm.transform(m, **kw)
                lx, ly, lj = lx - jf(X), ly - jg(Y), lj - jf(X) - jg(Y)
                X, Y = ff(X), fg(Y)
                if "sigmoid" in (f, g) or "exp" in (f, g):
                    break
            if mi is None:
                require(m.analytic_mi is None, "a mixture has no analytic value")
            else:
                require_close(m.analytic_mi, mi, "analytic value is unchanged by transforms", 1e-4, 1e-4)
            tol = dict(rtol=2e-3, atol=5e-3)
            jx, jy = jnp.asarray(X, dtype=jnp.float32), jnp.asarray(Y, dtype=jnp.float32)
            require(np.allclose(m.dist_joint.log_prob(jnp.hstack([jx, jy])), lj, **tol), "joint density",
                    got=np.asarray(m.dist_joint.log_prob(jnp.hstack([jx, jy])))[:5], want=lj[:5])
            require(np.allclose(m.dist_x.log_prob(jx), lx, **tol), "density of X")
            require(np.allclose(m.dist_y.log_prob(jy), ly, **tol), "density of Y")
            got = np.asarray(m.pmi(jx, jy), dtype=float)
            require(np.allclose(got, base_pmi, rtol=2e-3, atol=1e-2), "pointwise mutual information at the image points is unchanged", got=got[:5], want=base_pmi[:5])
            # independent product of the marginals
            pr = bmm.ProductDistribution(m.dist_x, m.dist_y)
            require((pr.dim_x, pr.dim_y) == (dx, dy) and pr.analytic_mi == 0, "product has mutual information 0", got=pr.analytic_mi)
            require(np.allclose(pr.pmi(jx, jy), 0, atol=1e-4), "product has pointwise mutual information 0", got=np.asarray(pr.pmi(jx, jy))[:5])
            mm = bmm.mixture([0.25, 0.75], [m, pr])
            want = np.logaddexp(math.log(0.25) + base_pmi, math.log(0.75))
            require(np.allclose(mm.pmi(jx, jy), want, rtol=2e-3, atol=1e-2), "mixing with the independent product", got=np.asarray(mm.pmi(jx, jy))[:5], want=want[:5])
            x, y = mm.sample(5, jax.random.PRNGKey(t))
            require(x.shape == (5, dx) and y.shape == (5, dy), "shape of samples")
            prof = bmm.pmi_profile(key=jax.random.PRNGKey(t), dist=mm, n=5)
            require(np.allclose(prof, mm.pmi(x, y), atol=1e-3, rtol=1e-4, equal_nan=True), "profile of the sample drawn with the key")

        ctx.case(f"continuous expression {part}.{t} {dx}x{dy} depth {depth}", go)
    ctx.count("continuous", ctx.pick(20, 150))
