"""C25: search for parameters and the paper's task generators against spec/Search.tla."""
import importlib
import math
import os
import random
import sys

import numpy as np
from harness.lib import require, require_close, require_raises


def load(*names):
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.dont_write_bytecode = True
    for d in ("Beyond_Normal", "Mixtures"):
        p = f"{repo}/workflows/projects/{d}"
        if p not in sys.path:
            sys.path.insert(0, p)
    return [importlib.import_module(n) for n in names]


def lvm_mi(dim, k, alpha, lambd):
    """Mutual information of the latent variable model with epsilon 1, beta 0, eta = lambd."""
    own = np.eye(dim) * (1 + lambd**2)
    cross = np.full((dim, dim), alpha**2)
    cov = own + alpha**2
    for i in range(k):
        cross[i, i] += lambd**2
    full = np.block([[cov, cross], [cross.T, cov]])
    ld = lambda m: np.linalg.slogdet(m)[1]  # noqa: E731
    return 0.5 * (2 * ld(cov) - ld(full))


def run(ctx):
    k = ctx.pick(1, 10)
    base = dict(MaxSlope=2, R=2, WithHoles=False, MaxMi=64)
    gen = dict(spec="GenSpec", invariants=["GenEmit"])
    parts = ctx.parallel(
        lambda: ctx.tlc("Search", dict(base, Lengths={1, 2}, MaxSlope=ctx.pick(3, 5), R=ctx.pick(4, 6)), invariants=["Laws"], label="bisection, exhaustive").rows,
        lambda: ctx.tlc("Search", dict(base, Lengths={2}, WithHoles=True, R=ctx.pick(2, 3)), invariants=["Laws"], label="bisection with failures, exhaustive").rows,
        lambda: ctx.tlc("Search", dict(base, Lengths={1, 2, 3, 5, 8, 13}, MaxSlope=40), simulate=400 * k, depth=40, seed=ctx.seed, label="problems", **gen).rows,
        lambda: ctx.tlc("Search", dict(base, Lengths={2, 4, 8}, MaxSlope=9, WithHoles=True), simulate=400 * k, depth=40, seed=ctx.seed + 1, label="problems with failures", **gen).rows,
        lambda: ctx.tlc("Search", dict(base, Lengths={1}), spec="TaskSpec", invariants=["TaskEmit"], label="generated tasks, exhaustive").rows,
    )
    rng = random.Random(ctx.seed)
    tasks = parts[4]
    rng.shuffle(tasks)
    if not ctx.thorough:
        tasks = tasks[:150]
    W = 4
    ctx.shard(lambda: search(ctx, parts[2] + parts[3]), *[(lambda w=w: generated(ctx, tasks[w::W])) for w in range(W)], lambda: examples(ctx))
    return ctx.finish(
        "model_checking",
        ["piecewise linear functions on up to 13 unit intervals, scaled and shifted; failing parts are intervals",
         "with failures a solution is only demanded when it is at least one interval away from the failing part and 5000 evaluations are allowed"],
        "distinct search problem, generated task, or example distribution",
    )


def search(ctx, rows):
    (hmu,) = load("_high_mi_utils")
    seen = set()
    for r in rows:
        key = str((r["ys"], r["target"], r["delta"], r["hole"]))
        if key in seen:
            continue
        seen.add(key)
        rng = random.Random(f"{ctx.seed}-{key}")
        n, ys = r["n"], r["ys"]
        lo, step, scale = rng.choice([(0.0, 1.0, 1.0), (-3.0, 0.25, 2.0), (5.0, 8.0, 0.125), (0.0, 1.0 / n, 1.0), (-1000.0, 1.0, 1.0)])
        hi = lo + step * n
        target, delta = r["target"] / 4 * scale, r["delta"] / 4 * scale
        if rng.random() < 0.4:
            tight = rng.choice([12, 28])
            delta *= 2.0**-tight  # tighter than the specification's
            rate = r["rate"] + tight
        else:
            rate = r["rate"]

        def go(r=r):
            calls, results = [], {}

            def f(x):
                calls.append(x)
                require(isinstance(x, (float, np.floating)) and lo <= x <= hi, "the function is only evaluated in its domain", x=x, domain=(lo, hi))
                p = (x - lo) / step
                if r["hole"] and r["hole"][0] <= p <= r["hole"][1]:
                    raise ValueError("not defined here")
                i = min(int(p), n - 1)
                results[x] = scale * (ys[i] + (ys[i + 1] - ys[i]) * (p - i))
                return results[x]

            kw = {}
            if rng.random() < 0.5:
                kw["seed"] = rng.randrange(1000)
            budget = rng.choice(["default", "enough", "few"])
            if budget == "few":
                kw["max_iter"] = rng.choice([0, 1, 2, 5])
            elif budget == "enough" and not r["hole"]:
                kw["max_iter"] = rate + 1
            got = hmu.binsearch(f, target, lo, hi, delta=delta, **kw)
            must = {"found": budget != "few" or kw["max_iter"] > rate, "none": False, "either": False}[r["outcome"]]
            if r["outcome"] == "none" and delta == r["delta"] / 4 * scale:
                require(got is None, "None when no argument has the value", got=got, target=target)
            if got is not None:
                require(got in results, "the answer is an argument that was evaluated without failure", got=got)
                require(abs(results[got] - target) < delta, "the value at the answer is the target up to delta", got=got, value=results[got], target=target, delta=delta)
            require(not must or got is not None, "an attainable target is found", target=target, delta=delta, kwargs=kw, evaluations=len(calls))
            require(len(calls) <= kw.get("max_iter", 5000), "at most max_iter evaluations", got=len(calls))
            first = list(calls)
            calls.clear()
            again = hmu.binsearch(f, target, lo, hi, delta=delta, **kw)
            require(again == got and calls == first, "deterministic", first=got, second=again)
            ctx.count("found" if got is not None else "not found")

        ctx.case(key + f" on [{lo}, {hi}] x{scale} delta {delta}", go, sample=r)

    def passed_on():
        def f(x):
            raise KeyError("mine")

        require_raises(KeyError, lambda: hmu.binsearch(f, 0.5, 0.0, 1.0), "other errors are passed on")
        v = hmu.binsearch(lambda x: x**3, 0.2, 0.0, 1.0)
        require(v is not None and abs(v**3 - 0.2) < 1e-4, "default precision is 1e-4", got=v)

    ctx.case("errors and defaults", passed_on)

    def mostly_failing(seed):
        def go():
            g = random.Random(seed)
            a = g.choice([0.9, 0.95, 0.97])
            t = a + (1 - a) * g.choice([0.3, 0.5, 0.7])

            def f(x):
                if x < a:
                    raise ValueError("not defined here")
                return 3 * x

            v = hmu.binsearch(f, 3 * t, 0.0, 1.0, seed=seed)
            require(v is not None and abs(3 * v - 3 * t) < 1e-4, "an attainable target is found when most of the domain fails", got=v, target=3 * t, defined_from=a)

        ctx.case(f"mostly failing {seed}", go)

    for s in range(ctx.pick(12, 100)):
        mostly_failing(s)


def generated(ctx, rows):
    hmu, su = load("_high_mi_utils", "_sparsity_utils")
    from bmi.transforms import Spiral, half_cube
    import jax
    import jax.numpy as jnp

    def turned(a, generator, speed):
        return np.asarray(jax.vmap(Spiral(generator=generator, speed=speed))(jnp.asarray(a)))

    for r in rows:
        kind, d, mi, e = r["kind"], r["dim"], r["mi"] / 8, r["extra"]

        def correct(t, want_mi, tol=1.1e-4):
            require_close(t.mutual_information, want_mi, "the task has the requested mutual information", 0, tol)
            require((t.dim_x, t.dim_y) == (d, d), "dimensions", got=(t.dim_x, t.dim_y))

        def gauss():
            fam = ["family", "another one"][d % 2]
            make = {"gaussian": hmu.generate_sparse_gaussian_task, "half-cube": hmu.generate_half_cube_task, "spiral": hmu.generate_spiral_task}[kind]
            kw = dict(mi=mi, family_name=fam, dim=d)
            speed = [1 / 3, 0.5, 2.0][e]
            if kind == "spiral" and e:
                kw["speed"] = speed
            if r["exists"] == "none":
                require(make(**kw) is None, "no task where the model does not exist")
                return
            if r["exists"] == "refused":
                require_raises(Exception, lambda: make(**kw), "refused")
                return
            t = make(**kw)
            correct(t, mi)
            c = math.sqrt(1 - math.exp(-mi))
            corr = float(t.params["correlation"])
            require_close(-math.log(1 - corr**2), mi, "two pairs with the reported correlation have the requested mutual information", 0, 1.2e-4, correlation=corr, ideal=c)
            p = t.params
            require(p["desired_mi"] == mi and p["dim"] == d and p["family_name"] == fam, "parameters record the request", got=p)
            require_close(p["true_mi"], t.mutual_information, "the reported true value is that of the task", 1e-6, 1e-6)
            base = hmu.generate_sparse_gaussian_task(mi=mi, family_name=fam, dim=d)
            n = 3000
            x, y = map(np.asarray, t.sample(n, 7))
            bx, by = map(np.asarray, base.sample(n, 7))
            if kind == "gaussian":
                want_id, want_name, wx, wy = f"sparse-gaussian-{mi:.3f}", f"Gaussian with {mi:.2f} MI", bx, by
                z = np.hstack([x, y])
                cov = np.eye(2 * d)
                for i in range(2):
                    cov[i, d + i] = cov[d + i, i] = corr
                require(np.abs(np.cov(z.T) - cov).max() < 6 * 1.5 / math.sqrt(n), "two correlated pairs of coordinates, the others independent", got=np.cov(z.T), want=cov)
            elif kind == "half-cube":
                want_id, want_name = f"half_cube-sparse-gaussian-{mi:.3f}", f"Half-cube with {mi:.2f} MI"
                wx, wy = np.asarray(half_cube(bx)), np.asarray(half_cube(by))
            else:
                want_id, want_name = f"spiral-sparse-gaussian-{mi:.3f}", f"Spiral with {mi:.2f} MI"
                g = np.zeros((d, d))
                g[0, 1], g[1, 0] = -1, 1
                h = np.zeros((d, d))
                h[1, 2], h[2, 1] = -1, 1
                wx, wy = turned(bx, g, speed / d), turned(by, h, speed / d)
            require(t.id == want_id or kind != "gaussian", "id", got=t.id, want=want_id)
            require("sparse-gaussian" in t.id and f"{mi:.3f}" in t.id, "id names the base task", got=t.id)
            require(t.name == want_name, "name", got=t.name, want=want_name)
            require(np.allclose(x, wx, atol=1e-4, rtol=1e-4) and np.allclose(y, wy, atol=1e-4, rtol=1e-4), "samples are the images of the Gaussian task's", got=x[:2], want=wx[:2])

        def lvm():
            if kind == "alpha":
                reach = lvm_mi(d, 0, 10.0, 0.0)
                if mi > reach + 1e-3:
                    require_raises(Exception, lambda: su.get_initial_alpha(mi, d), "an unattainable value is an error")
                    return
                a = su.get_initial_alpha(mi, d)
                require_close(lvm_mi(d, 0, a, 0.0), mi, "alpha has the requested mutual information", 0, 1.2e-4, alpha=a)
                return
            if kind == "lambda":
                if mi > lvm_mi(d, 0, 10.0, 0.0) + 1e-3:
                    return
                alpha = [0.0, 0.5, 0.9][e] * su.get_initial_alpha(mi, d)
                make = lambda: su.get_lambda_task(mi, d, alpha)  # noqa: E731
            else:
                alpha = 0.0
                make = lambda: su.get_n_interacting_task(mi, d, e)  # noqa: E731
            if mi > lvm_mi(d, r["interacting"], alpha, 10.0) + 1e-3:
                require_raises(Exception, make, "an unattainable value is an error")
                ctx.count("unattainable")
                return
            t = make()
            correct(t, mi)
            p = t.params
            require(p["n_interacting"] == r["interacting"] and p["alpha"] == alpha and (p["dim_x"], p["dim_y"]) == (d, d), "parameters are the requested ones", got=p, alpha=alpha)
            require_close(lvm_mi(d, p["n_interacting"], p["alpha"], p["lambd"]), mi, "the latent variable model with the reported strength has the requested value", 0, 1.2e-4, params=p)

        ctx.case(f"{kind} dim={d} mi={mi} extra={e}", gauss if kind in ("gaussian", "spiral", "half-cube") else lvm, sample=r)
        ctx.count(kind)


def examples(ctx):
    (ed,) = load("example_distributions")
    import bmi.benchmark.tasks as T
    import jax
    from bmi.samplers import bmm

    def one(name, size, comps):
        kw = {} if size is None else dict(_sample=size)
        tk = dict(mi_estimate_sample=size or 100)
        if name == "waves" and comps:
            kw["n_components"] = tk["n_components"] = comps
        e = getattr(ed, f"create_{name}_distribution")(**kw)
        t = getattr(T, f"task_{name}")(**tk)
        sx, sy = {"x": (0.3**0.5, 0.3**0.5), "galaxy": (0.3, 1.0)}.get(name, (1.0, 1.0))
        for seed in (0, 5):
            x, y = map(np.asarray, e.sampler.sample(400, seed))
            wx, wy = map(np.asarray, t.sample(400, seed))
            require(x.shape == wx.shape and y.shape == wy.shape, "dimensions of the example")
            require(np.allclose(x, sx * wx, atol=2e-4, rtol=1e-4) and np.allclose(y, sy * wy, atol=2e-4, rtol=1e-4), "the example is the package's distribution, scaled",
                    got=x[:2], want=sx * wx[:2])
        require_close(e.sampler.mutual_information(), t.mutual_information, "mutual information of the example", 1e-3, 2e-3)
        require((e.sampler.dim_x, e.sampler.dim_y) == (e.dist.dim_x, e.dist.dim_y), "the base distribution has the dimensions of the sampler")
        n = size or 100
        want = max(0.0, float(np.mean(np.asarray(bmm.pmi_profile(key=jax.random.PRNGKey(3), dist=e.dist, n=40_000)))))
        big = float(getattr(T, f"task_{name}")(**dict(tk, mi_estimate_sample=40_000)).mutual_information)
        require_close(want, big, "the base distribution has the mutual information of the example", 0, 0.05, n=n)

    for name in ("x", "ai", "galaxy", "waves"):
        for size in (None, 10, 333):
            for comps in ((None, 1, 5) if name == "waves" else (None,)):
                ctx.case(f"example {name} sample size {size} components {comps}", lambda: one(name, size, comps), timeout=300)
    for bad in (0, -1):
        ctx.case(f"waves with {bad} components", lambda: require_raises(AssertionError, lambda: ed.create_waves_distribution(bad), "at least one component"))
