"""C10: variational objectives, both backends, against spec/Objectives.tla."""
import math
import random

import numpy as np
from harness.lib import Violation, require

L2 = math.log(2.0)


def run(ctx):
    k = ctx.pick(1, 10)
    S = {0, 1, -1, 7, -9, 60, -60, 1000, -1000, 30000, -30000}
    parts = ctx.parallel(
        lambda: ctx.tlc("Objectives", dict(Ns={2}, Values={1, 2, 5}, Shifts={0}, Small={0}, MaxOps=0, Grads=True),
                        invariants=["Bounds", "Emit"], properties=["Invariance"], label="n=2, all batches").rows,
        lambda: ctx.tlc("Objectives", dict(Ns={2, 3}, Values={1, 2, 3, 7}, Shifts=S, Small={0, 1, 3, 6}, MaxOps=5, Grads=True),
                        spec="SpecE", invariants=["Bounds", "Emit"], properties=["Invariance"], simulate=250 * k, depth=40, seed=ctx.seed, label="n<=3").rows,
        lambda: ctx.tlc("Objectives", dict(Ns={4, 5, 7}, Values={1, 2, 3, 7, 40}, Shifts=S, Small={0, 1, 3, 6}, MaxOps=7, Grads=False),
                        spec="SpecE", invariants=["Bounds", "Emit"], properties=["Invariance"], simulate=120 * k, depth=90, seed=ctx.seed + 1, label="n<=7").rows,
        lambda: ctx.tlc("Objectives", dict(Ns={12, 16}, Values={1, 2, 3, 100}, Shifts=S, Small={0, 2}, MaxOps=6, Grads=False),
                        spec="SpecE", invariants=["Bounds", "Emit"], properties=["Invariance"], simulate=25 * k, depth=300, seed=ctx.seed + 2, label="n<=16").rows,
        lambda: ctx.tlc("Objectives", dict(Ns={6, 13}, Values={1, 30, 1000000}, Shifts={0, 7, -60}, Small={0, 2}, MaxOps=6, Grads=False),
                        spec="SpecE", invariants=["Bounds", "Emit"], properties=["Invariance"], simulate=25 * k, depth=300, seed=ctx.seed + 3, label="a few dominant scores").rows,
    )
    import jax
    import jax.numpy as jnp
    from bmi.estimators.neural import _backend_linear_memory as lin
    from bmi.estimators.neural import _backend_quadratic_memory as quad

    backends = {"linear": lin, "quadratic": quad}

    def lookup(x, y, table):
        return table[jnp.round(x[0]).astype(int), jnp.round(y[-1]).astype(int)]

    funcs = {}
    for bn, b in backends.items():
        for fn in ("infonce", "donsker_varadhan", "nwj"):
            def val(table, xs, ys, f=getattr(b, fn)):
                return f(lambda x, y: lookup(x, y, table), xs, ys)
            funcs[bn, fn] = (val, jax.jit(val), jax.jit(jax.grad(val)))
    rng = random.Random(ctx.seed)
    seen = set()
    n_eager = 0
    for r in [r for p in parts for r in p]:
        key = str((r["A"], r["g"], r["r"], r["c"]))
        if key in seen:
            continue
        seen.add(key)
        n, g, v = r["n"], r["g"], r["v"]
        A = np.asarray(r["A"], dtype=float)
        base = np.log(A) + (np.asarray(r["r"])[:, None] + np.asarray(r["c"])[None, :]) * L2
        table = base + g * L2
        mag = float(np.max(np.abs(table)))
        # row labels are arbitrary distinct integers: the critic sees points, not indices
        mlogpos = math.fsum(math.log(p) for p in v["pos"]) / n
        want = {
            "infonce": math.log(n) + mlogpos - math.fsum(math.log(s) for s in v["row"]) / n,
            "donsker_varadhan": mlogpos - math.log(v["off"]) + math.log(n * (n - 1)),
        }
        logq = math.log(v["off"]) + g * L2 - 1.0 - math.log(n * (n - 1))  # log of the NWJ correction
        posn = mlogpos + g * L2
        tol = 3e-6 + 6e-7 * mag
        eager = n <= 5 and n_eager < ctx.pick(25, 150)
        n_eager += eager

        def go():
            # points: x = (i, noise), y = (noise, j)
            xs = jnp.asarray([[i] + [rng.random()] for i in range(n)], dtype=jnp.float32)
            ys = jnp.asarray([[rng.random(), rng.random(), j] for j in range(n)], dtype=jnp.float32)
            t = jnp.asarray(table, dtype=jnp.float32)
            for (bn, fn), (raw, fast, grad) in funcs.items():
                forms = [("jit", fast)] + ([("eager", raw)] if eager else [])
                for mode, f in forms:
                    got = float(f(t, xs, ys))
                    if math.isnan(got):
                        raise Violation(f"{bn} {fn}: not a number", mode=mode, got=got)
                    if fn == "nwj":
                        if logq > 88.0:
                            require(got < -1e38, f"{bn} {fn}: value of the bound", mode=mode, got=got, logq=logq)
                        else:
                            q = math.exp(logq)
                            require(abs(got - (posn - q)) <= tol + q * (1e-5 + 6e-7 * mag), f"{bn} {fn}: value of the bound",
                                    mode=mode, got=got, want=posn - q)
                    else:
                        require(abs(got - want[fn]) <= tol, f"{bn} {fn}: value of the bound", mode=mode, got=got, want=want[fn])
                        if fn == "infonce":
                            require(got <= math.log(n) + tol, f"{bn} {fn}: never exceeds log n", got=got)
                if r["grad"]:
                    G = r["grad"][0]
                    got = np.asarray(grad(t, xs, ys), dtype=float)
                    if fn == "nwj":
                        if logq > 60:
                            continue
                        e = math.exp(g * L2 - 1.0)
                        w = [[d[0] / d[1] - e * o[0] / o[1] for d, o in row] for row in G["nwj"]]
                        t2 = (1e-5 + 2e-6 * mag) * (1.0 + np.max(np.abs(w)))
                    else:
                        w = [[a / b for a, b in row] for row in G["infonce" if fn == "infonce" else "dv"]]
                        t2 = 1e-5 + 1e-6 * mag
                    require(np.allclose(got, w, rtol=0, atol=t2), f"{bn} {fn}: derivative with respect to the scores",
                            got=got, want=w)

        ctx.case(key, go, sample=r["A"])
        ctx.count(f"n={n}")

    # real critics: the score matrix is computed independently in double precision
    from bmi.estimators.neural._critics import MLP
    from scipy.special import logsumexp

    nr = np.random.default_rng(ctx.seed)
    for t in range(ctx.pick(6, 40)):
        n, dx, dy = int(nr.integers(2, 40)), int(nr.integers(1, 5)), int(nr.integers(1, 5))
        xs, ys = nr.normal(size=(n, dx)), nr.normal(size=(n, dy))
        if t % 3 == 2:  # repeated points
            ys[nr.integers(0, n, size=n // 2)] = ys[0]
        mlp = MLP(key=jax.random.PRNGKey(t), dim_x=dx, dim_y=dy, hidden_layers=[5, 3][: t % 3])
        steep = 1 if t % 2 else 400  # steep critics: bounds far below zero

        def go():
            layers = [(np.asarray(la.weight, dtype=float), np.asarray(la.bias, dtype=float)) for la in mlp.layers]

            def score(x, y):
                z = np.concatenate([x, y])
                for w, b in layers[:-1]:
                    z = np.maximum(w @ z + b, 0.0)
                w, b = layers[-1]
                return float((w @ z + b)[0])

            T = steep * np.array([[score(x, y) for y in ys] for x in xs])
            off = T[~np.eye(n, dtype=bool)]
            lse = logsumexp(off) - math.log(len(off))
            want = dict(
                infonce=math.log(n) + np.mean(np.diag(T)) - np.mean(logsumexp(T, axis=1)),
                donsker_varadhan=np.mean(np.diag(T)) - lse,
                nwj=np.mean(np.diag(T)) - math.exp(min(lse - 1.0, 600.0)),
            )
            require(want["nwj"] <= want["donsker_varadhan"] + 1e-9, "NWJ never exceeds Donsker-Varadhan")
            for bn, b in backends.items():
                for fn, w in want.items():
                    got = float(getattr(b, fn)(lambda x, y: steep * mlp(x, y), jnp.asarray(xs), jnp.asarray(ys)))
                    if w < -1e37:  # beyond single precision
                        require(got < -1e37, f"{bn} {fn}: value of the bound (steep network critic)", got=got, want=w)
                        continue
                    tol = 2e-5 * (1 + abs(w)) + (0 if steep == 1 else 2e-6 * np.abs(T).max() * (1 + (abs(w) if fn == "nwj" else 0)))
                    require(abs(got - w) < tol, f"{bn} {fn}: value of the bound (network critic)", got=got, want=w)

        ctx.case(f"network {t} n={n} {dx}x{dy}", go)

    return ctx.finish(
        "model_checking",
        ["scores are logarithms of positive integers times powers of two; batch sizes up to 16 (40 for network critics)",
         "single-precision tolerance 3e-6 + 6e-7 |score|"],
        "distinct score matrix (with offsets) for which the specification gives the exact values of all three bounds",
    )
