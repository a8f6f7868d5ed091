"""C05: pushforwards and concatenations are exact (spec/Compose.tla, scripted leaves)."""
import random

import numpy as np
from harness import compose
from harness.lib import require


def fingerprint(key):
    if isinstance(key, (int, np.integer)):
        return ("int", int(key))
    try:
        import jax

        key = jax.random.key_data(key)
    except Exception:
        pass
    a = np.asarray(key)
    return ("key", a.dtype.str, a.shape, a.tobytes())


def run(ctx):
    q = ctx.pick(1, 6)
    *parts, wide, wider = ctx.parallel(
        lambda: compose.rows(ctx, "stub", 450 * q, 11),
        lambda: compose.rows(ctx, "stub", 300 * q, 12, max_ops=3),
        lambda: compose.rows(ctx, "stub", 100 * q, 13, max_ops=12, max_dim=12),
        lambda: compose.rows(ctx, "real", 120 * q, 14, max_ops=5),
        lambda: compose.rows(ctx, "stub", 40 * q, 15, max_ops=3, max_dim=60, wide=9),
        lambda: compose.rows(ctx, "stub", 12 * q, 16, max_ops=2, max_dim=90, wide=25),
    )
    import jax
    from bmi.samplers import BaseSampler, IndependentConcatenationSampler, TransformedSampler

    rng = random.Random(ctx.seed)

    class Scripted(BaseSampler):
        """Returns known values and records how it was called."""

        def __init__(self, p, log):
            super().__init__(dim_x=p["dx"], dim_y=p["dy"])
            self.p, self.log = p, log

        def sample(self, n_points, rng):
            self.log.append((self.p["id"], n_points, fingerprint(rng)))
            f = lambda d: np.array(  # noqa: E731
                [[100 * self.p["id"] + 10 * c + i for c in range(1, d + 1)] for i in range(1, n_points + 1)], float
            ).reshape(n_points, d)
            return f(self.dim_x), -f(self.dim_y)

        def mutual_information(self):
            return self.p["mi"] / 4

    for r in parts[0] + parts[1] + parts[2] + wide + wider:
        prog, n = r["prog"], r["n"]
        X, Y = np.array(r["X"], float), np.array(r["Y"], float)
        ids = sorted(o[1]["id"] for o in prog if o[0] == "stub")
        concats = sum(1 for o in prog if o[0] == "concat")
        seed = rng.choice([0, 1, 7, 12345, 2**31 - 1])

        def go():
            log, maps = [], []

            def wrap(f, vec, which):
                def g(v):
                    maps.append((vec, which, v.ndim, v.shape[0]))
                    return f(v)

                return g

            s = compose.build(prog, leaf=lambda p: Scripted(p, log), wrap_map=wrap)
            for rep in range(2):
                rngv = seed if rng.random() < 0.5 else jax.random.PRNGKey(seed)
                if concats == 0 and rng.random() < 0.3:
                    rngv = np.int64(seed)
                log.clear(), maps.clear()
                out = s.sample(n, rngv)
                require(len(out) == 2, "a pair is returned")
                x, y = np.asarray(out[0]), np.asarray(out[1])
                require(x.shape == X.shape and y.shape == Y.shape, "shapes", got=(x.shape, y.shape), want=(X.shape, Y.shape))
                require(np.array_equal(x, X), "X is the specified pushforward / stack", got=x, want=X)
                require(np.array_equal(y, Y), "Y is the specified pushforward / stack", got=y, want=Y)
                require(sorted(e[0] for e in log) == ids, "every component is sampled exactly once", got=[e[0] for e in log])
                require(all(e[1] == n for e in log), "components are sampled with the requested size")
                if concats == 0:
                    require(log[0][2] == fingerprint(rngv), "the base sampler gets the given seed", got=log[0][2])
                else:
                    keys = [e[2] for e in log]
                    require(len(set(keys)) == len(keys), "components get different randomness", keys=keys)
                for vec, which, nd, size in maps:
                    require(nd == (1 if vec else 2), "vectorise: the map gets one point, otherwise the whole array", vec=vec, ndim=nd)
                    if not vec:
                        require(size == n, "without vectorise the map gets all the points", got=size)
            if concats:
                log.clear()
                s.sample(n, seed)
                a = list(log)
                log.clear()
                s.sample(n, seed + 1)
                b = list(log)
                log.clear()
                s.sample(n, jax.random.PRNGKey(seed))
                require(a == list(log), "integer seed and its key give the components the same randomness")
                require(not set(e[2] for e in a) & set(e[2] for e in b), "another seed gives other randomness")
            if prog[-1][0] == "transform":
                base = compose.build(prog[:-1], leaf=lambda p: Scripted(p, log))
                bx, by = base.sample(n, seed)
                tx, ty = s.transform(np.asarray(bx), np.asarray(by))
                require(np.array_equal(np.asarray(tx), X) and np.array_equal(np.asarray(ty), Y), "transform(x, y) applies the same maps")

        ctx.case(f"n={n} {prog}", go, sample=r)

    # the same object used twice in a concatenation is drawn twice, independently
    for t in range(20 * q):
        p = dict(id=1, dx=rng.randint(1, 2), dy=rng.randint(1, 2), mi=1)
        k = rng.choice([2, 3, 4, 5, 17, 70])

        def same():
            log = []
            s = Scripted(p, log)
            IndependentConcatenationSampler([s] * k).sample(3, t)
            require(len(log) == k and len(set(e[2] for e in log)) == k, "a repeated component gets new randomness each time")

        ctx.case(f"repeated component {t} {p} {k}", same)

    # real samplers: same seed, base sample mapped
    for r in parts[3]:
        if r["prog"][-1][0] != "transform":
            continue
        _, f, g, vec, _, _ = r["prog"][-1]

        def real():
            s = compose.build(r["prog"])
            base = compose.build(r["prog"][:-1])
            n, seed = rng.choice([1, 2, 5, 40]), rng.randint(0, 2**31 - 1)
            mk = lambda m: (lambda v: v) if m == "none" else compose.array_map(m)  # noqa: E731
            bx, by = base.sample(n, seed)
            x, y = s.sample(n, seed)
            require(np.allclose(x, mk(f)(np.asarray(bx)), rtol=1e-5, atol=1e-6), "X map applied to the base sample")
            require(np.allclose(y, mk(g)(np.asarray(by)), rtol=1e-5, atol=1e-6), "Y map applied to the base sample")

        ctx.case(f"real {r['prog']}", real)

    # a map that raises or changes width on one side does not affect the other: no map at all is the identity
    def ident():
        for vec in (True, False):
            s = Scripted(dict(id=3, dx=2, dy=3, mi=0), [])
            x, y = TransformedSampler(s, vectorise=vec).sample(4, 0)
            bx, by = s.sample(4, 0)
            require(np.array_equal(x, bx) and np.array_equal(y, by), "no maps: identity", vectorise=vec)

    ctx.case("identity", ident)
    return ctx.finish(
        "model_checking",
        ["scripted leaves with integer values; expressions of up to 4 leaves and 12 operations, concatenations of up to 25 components; maps from a fixed catalogue"],
        "distinct sampler expression with an exact sample computed by the specification",
    )
