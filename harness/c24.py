"""C24: the Gaussian-mixture estimator against spec/GMM.tla.

The Markov chain is replaced by a stand-in (methods of numpyro's MCMC class) that
records what it is run with and returns the posterior samples of the specification;
a few short runs use the real chain.
"""
import contextlib
import io
import math
import random

import numpy as np
from harness.lib import require, require_close, require_raises


class Crash(Exception):
    pass


class Chain:
    """Stand-in for the sampling of numpyro's MCMC."""

    def __init__(self, MCMC):
        self.MCMC = MCMC
        self.runs = []
        self.post = {}
        self.script = None  # posterior of the next run, or "crash", or None for the real chain
        self.real = (MCMC.run, MCMC.get_samples)
        me = self

        def run(mc, *args, **kwargs):
            if me.script is None:
                return me.real[0](mc, *args, **kwargs)
            rng, rest = args[0] if args else kwargs.pop("rng_key"), args[1:]
            me.runs.append(dict(rng=np.asarray(rng), args=rest, kwargs=kwargs, mcmc=mc, model=mc.sampler.model,
                                samples=mc.num_samples, warmup=mc.num_warmup, thinning=mc.thinning, chains=mc.num_chains))
            if me.script == "crash":
                raise Crash()
            me.post[id(mc)] = (mc, me.script)

        def get_samples(mc, *args, **kwargs):
            if id(mc) not in me.post:
                return me.real[1](mc, *args, **kwargs)
            return dict(me.post[id(mc)][1])

        MCMC.run, MCMC.get_samples = run, get_samples

    def restore(self):
        self.MCMC.run, self.MCMC.get_samples = self.real


def posterior(post):
    import jax.numpy as jnp

    w = np.array([p["weights"] for p in post]) / 8.0
    r = np.random.default_rng(0)
    mu = np.array([p["mean"] for p in post], dtype=float)
    cov = np.array([p["cov"] for p in post], dtype=float)
    return dict(
        pi=jnp.asarray(w),
        mu=jnp.asarray(mu),
        cov=jnp.asarray(cov),
        tau=jnp.asarray(r.random(mu.shape)),
        L_omega=jnp.asarray(np.linalg.cholesky(cov) * 0.5),
    )


def lognormal(x, m, c):
    d = x - m
    q = np.einsum("ni,ij,nj->n", d, np.linalg.inv(c), d)
    return -0.5 * (q + np.linalg.slogdet(c)[1] + len(m) * math.log(2 * math.pi))


def logmix(x, w, ms, cs):
    v = np.stack([np.log(wi) + lognormal(x, np.asarray(m, float), np.asarray(c, float)) for wi, m, c in zip(w, ms, cs)])
    t = v.max(0)
    return t + np.log(np.exp(v - t).sum(0))


def data_of(dx, dy, seed, n=12):
    r = np.random.default_rng(seed)
    return r.integers(-9, 10, size=(n, dx)), r.integers(-9, 10, size=(n, dy)) + 3


def replay(ctx, rows):
    import jax
    import jax.numpy as jnp
    import numpyro
    from bmi.estimators.external.gmm import GMMEstimator
    from bmi.samplers import bmm
    from numpyro.infer import MCMC

    chain = Chain(MCMC)

    def check_run(cfg, run, x, y):
        """What the chain was run with, judged by tracing the model it was given."""
        require(run["samples"] == cfg["S"], "number of posterior samples", got=run["samples"], want=cfg["S"])
        require(run["warmup"] == cfg["warm"], "warm-up", got=run["warmup"], want=cfg["warm"])
        require(run["thinning"] == 1 and run["chains"] == 1, "one chain, every posterior sample kept")
        z = np.concatenate([x, y], axis=1).astype(float)
        if cfg["std"]:
            z = np.concatenate([(x - x.mean(0)) / x.std(0), (y - y.mean(0)) / y.std(0)], axis=1)
        tr = numpyro.handlers.trace(numpyro.handlers.seed(run["model"], 5)).get_trace(*run["args"], **run["kwargs"])
        obs = [s for s in tr.values() if s["type"] == "sample" and s.get("is_observed")]
        require(len(obs) == 1, "one observed site", got=len(obs))
        val = np.asarray(obs[0]["value"])
        require(val.shape == z.shape, "the data fitted", got=val.shape, want=z.shape)
        require(np.allclose(val, z, rtol=1e-5, atol=1e-5), "the (standardised) data are fitted", got=val[:2], want=z[:2])
        pi, mu, cov = (np.asarray(tr[s]["value"], dtype=float) for s in ("pi", "mu", "cov"))
        d = z.shape[1]
        require((pi.shape, mu.shape, cov.shape) == ((cfg["K"],), (cfg["K"], d), (cfg["K"], d, d)), "number of components",
                got=(pi.shape, mu.shape, cov.shape))
        a = 1.0 / cfg["K"] if cfg["alpha"] == "none" else float(cfg["alpha"])
        conc = np.asarray(tr["pi"]["fn"].concentration, dtype=float)
        require(conc.shape == (cfg["K"],) and np.allclose(conc, a, rtol=1e-5), "prior concentration", got=conc, want=a)
        with np.errstate(all="ignore"):
            ok = all(np.linalg.eigvalsh(c).min() > 1e-4 * np.linalg.eigvalsh(c).max() for c in cov)
            want = logmix(z, np.maximum(pi, 1e-300), mu, cov) if ok else None
        if ok:
            got = np.asarray(obs[0]["fn"].log_prob(jnp.asarray(z)), dtype=float)
            require(np.allclose(got, want, rtol=2e-2, atol=2e-2), "likelihood is the mixture with the sampled parameters", got=got[:3], want=want[:3])
            ctx.count("likelihoods compared")

    def check_dist(dist, want):
        require((dist.dim_x, dist.dim_y) == (want["dx"], want["dy"]), "dimensions of the mixture", got=(dist.dim_x, dist.dim_y))
        w = [v / 8 for v in want["weights"]]
        r = np.random.default_rng(4)
        c = np.asarray(want["mean"], float)
        pts = np.concatenate([c, c + r.normal(size=c.shape), r.normal(size=(3, c.shape[1])) * 4]).astype(np.float32)
        dx = want["dx"]
        for name, d, x, m, cv in (
            ("joint", dist.dist_joint, pts, want["mean"], want["cov"]),
            ("X", dist.dist_x, pts[:, :dx], want["mx"], want["cx"]),
            ("Y", dist.dist_y, pts[:, dx:], want["my"], want["cy"]),
        ):
            got = np.asarray(d.log_prob(jnp.asarray(x)), dtype=float)
            ref = logmix(x.astype(float), w, m, cv)
            require(np.allclose(got, ref, rtol=2e-3, atol=5e-3), f"{name} density is that of posterior sample", got=got[:4], want=ref[:4])

    def reference(want):
        return bmm.mixture(
            proportions=jnp.asarray(want["weights"]) / 8.0,
            components=[
                bmm.MultivariateNormalDistribution(dim_x=want["dx"], dim_y=want["dy"], mean=jnp.asarray(m, dtype=float), covariance=jnp.asarray(c, dtype=float))
                for m, c in zip(want["mean"], want["cov"])
            ],
        )

    def execute(row, seed, checks, as_posterior=False):
        """One run of the history on a fresh object; returns all numbers observed."""
        cfg = row["cfg"]
        kw = dict(key=cfg["seed"], n_components=cfg["K"], mcmc_num_warmup=cfg["warm"], mcmc_num_samples=cfg["S"], mi_estimate_num_samples=cfg["n"],
                  standardize=cfg["std"])
        if cfg["alpha"] != "none":
            kw["alpha"] = float(cfg["alpha"])
        if cfg["thin"]:
            kw["n_thinned_samples"] = cfg["thin"]
        e = GMMEstimator(**kw)
        out = []
        for i, s in enumerate(row["script"]):
            op = s["op"]
            if op in ("run", "posterior", "estimate", "mismatch", "crash"):
                x, y = data_of(s["dx"], s["dy"], seed + i)
                chain.runs.clear()
                chain.script = posterior(s["post"]) if "post" in s else "crash"
            if op == "run":
                e.run_mcmc(x, y)
            elif op in ("posterior", "estimate"):
                kws = {} if not s["thin"] else dict(n_thinned_samples=s["thin"])
                if op == "posterior" or as_posterior:
                    p = np.asarray(e.get_posterior_mi(x, y, **kws), dtype=float)
                    require(p.shape == (s["count"],), "requested number of posterior values", got=p.shape, want=s["count"])
                    out.append((op, p))
                    ids = p / math.log(2)
                    near = np.round(ids)
                    require(np.all(np.abs(ids - near) < 0.35) and len(set(near)) == len(near) and near.min() >= 0 and near.max() < cfg["S"],
                            "posterior values belong to distinct posterior samples", values=p, in_log2=ids)
                else:
                    v = e.estimate(x, y, **kws)
                    out.append((op, np.asarray(float(v))))
            elif op == "mismatch":
                try:
                    e.run_mcmc(x, y[:-1]) if i % 2 else e.estimate(x[:-1], y)
                except Exception:
                    require(not chain.runs, "mismatching data reached the chain")
                else:
                    require(False, "arrays of different lengths are refused")
            elif op == "crash":
                require_raises(Crash, lambda: e.run_mcmc(x, y) if i % 2 else e.get_posterior_mi(x, y), "error of the chain is passed on")
            elif op in ("dist", "mi") and not s["ok"]:
                fn = (lambda: e.get_bmm_distribution(s["idx"])) if op == "dist" else (lambda: e.get_sample_mi(s["idx"], key=jax.random.PRNGKey(1)))
                require_raises(ValueError, fn, "querying before any fit is an error")
            elif op == "dist":
                dist = e.get_bmm_distribution(s["idx"])
                if checks:
                    check_dist(dist, s["want"])
            elif op == "mi":
                if s["key"] == 3:  # own randomness: only the history decides
                    v = float(e.get_sample_mi(s["idx"]))
                    out.append(("own", np.asarray(v)))
                else:
                    key = jax.random.PRNGKey(s["key"] + s["idx"])
                    kws = {} if not s["n"] else dict(mc_samples=s["n"])
                    v = float(e.get_sample_mi(s["idx"], key=key, **kws))
                    out.append(("mi", np.asarray(v)))
                    if checks:
                        want, _ = bmm.monte_carlo_mi_estimate(key=key, dist=reference(s["want"]), n=s["n"] or cfg["n"])
                        require_close(v, float(want), "value for key and sample size is the Monte-Carlo estimate of the mixture", 1e-3, 1e-3,
                                      idx=s["idx"], n=s["n"], default_n=cfg["n"])
            elif op == "params":
                p = e.parameters()
                want = dict(standardize=cfg["std"], n_components=cfg["K"], alpha=None if cfg["alpha"] == "none" else float(cfg["alpha"]),
                            mcmc_num_warmup=cfg["warm"], mcmc_num_samples=cfg["S"], mi_estimate_num_samples=cfg["n"],
                            n_thinned_samples=cfg["thin"] or cfg["S"])
                require(p.dict() == want, "parameters", got=p.dict(), want=want)
            if op in ("run", "posterior", "estimate"):
                require(len(chain.runs) == 1, "one chain per fit", got=len(chain.runs))
                if checks:
                    check_run(cfg, chain.runs[0], x, y)
                out.append(("chain", chain.runs[0]["rng"].ravel().astype(float)))
            chain.post = dict(list(chain.post.items())[-6:])
        return out

    for j, row in enumerate(rows):
        key = f"cfg={row['cfg']} " + " ".join(f"{s['op']}{(s.get('dx'), s.get('dy')) if 'dx' in s else ''}{[s[k] for k in ('idx', 'key', 'n', 'thin') if k in s]}" for s in row["script"])

        def go(row=row):
            with contextlib.redirect_stderr(io.StringIO()):
                seed = 100 * ctx.seed + sum(map(ord, key)) % 97
                a = execute(row, seed, True)
                np.random.seed(3)
                b = execute(row, seed, False)
                require(len(a) == len(b), "same history, same answers")
                for (o, u), (_, v) in zip(a, b):
                    require(np.array_equal(u, v), "same seed and call history give the same answers", of=o, first=u, second=v)
                if any(s["op"] == "estimate" for s in row["script"]):
                    c = execute(row, seed, False, as_posterior=True)
                    for (o, u), (_, v) in zip(a, c):
                        if o == "estimate":
                            require_close(float(u), float(np.mean(v)), "the estimate is the mean of the posterior values", 1e-5, 1e-5)

        ctx.case(key, go, timeout=300, sample=row["script"][-1] if len(ctx.samples) < 3 else None)
    chain.restore()


def real(ctx, which):
    """The real chain: distributions are those of its posterior samples; runs repeat."""
    import jax
    import jax.numpy as jnp
    from bmi.estimators.external.gmm import GMMEstimator
    from bmi.samplers import bmm
    from numpyro.infer import MCMC

    K, dx, dy, std, alpha = [(2, 1, 1, True, None), (3, 1, 2, False, 0.7)][which % 2]
    r = np.random.default_rng(ctx.seed + which)
    z = r.normal(size=(30, 1))
    x, y = z + 0.5 * r.normal(size=(30, dx)) + 1, z + 0.5 * r.normal(size=(30, dy))
    seen = {}
    orig = MCMC.get_samples

    def spy(mc, *a, **k):
        s = orig(mc, *a, **k)
        seen["last"] = s
        return s

    def go():
        MCMC.get_samples = spy
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                vals = []
                for _ in range(2):
                    e = GMMEstimator(key=4, n_components=K, alpha=alpha, standardize=std, mcmc_num_warmup=15, mcmc_num_samples=6, mi_estimate_num_samples=400)
                    p = np.asarray(e.get_posterior_mi(x, y))
                    require(p.shape == (6,), "requested number of posterior values", got=p.shape)
                    vals.append(p)
                    for i in (0, 5):
                        dist = e.get_bmm_distribution(i)
                        s = {k: np.asarray(v[i], dtype=float) for k, v in seen["last"].items()}
                        pts = np.concatenate([r.normal(size=(4, dx + dy)), np.asarray(s["mu"])]).astype(np.float32)
                        want = logmix(pts.astype(float), s["pi"], s["mu"], s["cov"])
                        got = np.asarray(dist.dist_joint.log_prob(jnp.asarray(pts)), dtype=float)
                        keep = want > -60
                        require(np.allclose(got[keep], want[keep], rtol=2e-2, atol=2e-2), "joint density of posterior sample (real chain)", got=got, want=want)
                        wx = logmix(pts[:, :dx].astype(float), s["pi"], s["mu"][:, :dx], s["cov"][:, :dx, :dx])
                        gx = np.asarray(dist.dist_x.log_prob(jnp.asarray(pts[:, :dx])), dtype=float)
                        keep = wx > -60
                        require(np.allclose(gx[keep], wx[keep], rtol=2e-2, atol=2e-2), "X density of posterior sample (real chain)", got=gx, want=wx)
                require(np.array_equal(vals[0], vals[1]), "same seed and data give the same posterior (real chain)", a=vals[0], b=vals[1])
                own = [float(e.get_sample_mi(1)) for _ in range(4)]
                require(len(set(own)) == 4, "queries without a key use fresh randomness", got=own)
                big = GMMEstimator(key=4, n_components=K, alpha=alpha, standardize=std, mcmc_num_warmup=5, mcmc_num_samples=2, mi_estimate_num_samples=20_000)
                big.run_mcmc(x, y)
                kk = jax.random.PRNGKey(11)
                for n, kws in ((20_000, {}), (12_345, dict(mc_samples=12_345))):
                    want, _ = bmm.monte_carlo_mi_estimate(key=kk, dist=big.get_bmm_distribution(1), n=n)
                    require_close(float(big.get_sample_mi(1, key=kk, **kws)), float(want), "value for key and sample size is the Monte-Carlo estimate of the mixture", 1e-5, 1e-5, n=n)
        finally:
            MCMC.get_samples = orig

    ctx.case(f"real chain K={K} dims=({dx},{dy}) standardize={std} alpha={alpha}", go, timeout=600)


def prior(ctx):
    """The prior of the model the chain is run with, from its own draws."""
    import jax
    import jax.numpy as jnp
    import numpyro
    from bmi.estimators.external.gmm import GMMEstimator
    from numpyro.infer import MCMC
    from scipy import stats

    chain = Chain(MCMC)
    n = 4000

    def go(K, dx, dy, alpha):
        x, y = data_of(dx, dy, 5)
        chain.script = "crash"
        chain.runs.clear()
        try:
            GMMEstimator(n_components=K, alpha=alpha, mcmc_num_samples=2).run_mcmc(x, y)
        except Crash:
            pass
        r = chain.runs[0]

        def draw(key):
            tr = numpyro.handlers.trace(numpyro.handlers.seed(r["model"], key)).get_trace(*r["args"], **r["kwargs"])
            return {s: tr[s]["value"] for s in ("pi", "mu", "cov")}

        v = {k: np.asarray(a, dtype=float) for k, a in jax.vmap(draw)(jax.random.split(jax.random.PRNGKey(7), n)).items()}

        def ks(a, dist, what):
            d = stats.kstest(a, dist.cdf).statistic
            require(d < 3.2 / math.sqrt(len(a)), f"prior: {what}", ks=d, n=len(a))

        a = alpha or 1.0 / K
        grid = np.linspace(0.01, 0.99, 99)  # away from the ends, where single precision saturates for small concentrations
        dev = max(abs(np.mean(v["pi"][:, K - 1] <= g) - stats.beta(a, a * (K - 1)).cdf(g)) for g in grid)
        require(dev < 3.2 / math.sqrt(n), "prior: proportions are Dirichlet with the concentration", ks=dev, n=n)
        d = dx + dy
        for c in range(K):
            sd = np.sqrt(np.einsum("nii->ni", v["cov"][:, c]))
            for i in range(d):
                ks(v["mu"][:, c, i], stats.norm(0, 3), "means are normal with scale 3")
                ks(sd[:, i], stats.halfcauchy(), "scales are half-Cauchy")
            for i in range(d):
                for j in range(i):
                    rho = v["cov"][:, c, i, j] / (sd[:, i] * sd[:, j])
                    keep = (sd[:, i] > 0.05) & (sd[:, j] > 0.05)  # where the jitter does not matter
                    ks((rho[keep] + 1) / 2, stats.beta(d / 2, d / 2), "correlations are uniform over correlation matrices")

    for K, dx, dy, alpha in ((2, 1, 1, None), (3, 1, 2, 0.8), (2, 2, 2, 1.5), (2, 1, 1, 0.02)):
        ctx.case(f"prior K={K} dims=({dx},{dy}) alpha={alpha}", lambda: go(K, dx, dy, alpha))
    chain.restore()


def run(ctx):
    k = ctx.pick(1, 10)
    rows = [
        r
        for part in ctx.parallel(*[
            (lambda s=s, m=m, n=n, size=size, ops=ops: ctx.tlc("GMM", dict(MaxLen=m, Sizes=size, OpKinds=ops), invariants=["Laws", "Emit"], simulate=n * k, depth=60, seed=ctx.seed * 10 + s, label=f"histories of {m}").rows)
            for s, m, n, size, ops in ((1, 4, 24, "==1..5", "==AllKinds"), (2, 8, 26, "==1..5", "==AllKinds"),
                                       (3, 6, 8, {60, 400}, {"run", "dist", "dist2", "mi", "params"}))
        ])
        for r in part
    ]
    random.Random(ctx.seed).shuffle(rows)
    W = 7
    ctx.shard(*[(lambda w=w: replay(ctx, rows[w::W])) for w in range(W)], lambda: [prior(ctx), real(ctx, ctx.seed)] and None, *([lambda: real(ctx, ctx.seed + 1)] if ctx.thorough else []))
    return ctx.finish(
        "model_checking",
        [
            "the Markov chain is a stand-in returning the specification's posterior samples, except in the runs with the real chain",
            "up to 3 components, 4 dimensions and 5 posterior samples",
            "posterior values are attributed to samples whose mutual informations differ by log 2",
        ],
        "distinct call history generated by TLC and replayed on fresh estimators",
    )
