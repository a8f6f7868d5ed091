"""C21: transforms against spec/Transforms.tla."""
import math
import random

import numpy as np
from harness.lib import require, require_close, require_raises


def run(ctx):
    k = ctx.pick(1, 12)

    def sim(kind, num, maxn, coord, speed, seed, depth=30):
        return lambda: ctx.tlc("Transforms", dict(Kinds={kind}, MaxN=maxn, Coord=set(coord), MaxSpeed=speed), invariants=["Laws", "Emit"],
                               simulate=num, depth=depth, seed=ctx.seed * 10 + seed, label=kind).rows

    parts = ctx.parallel(
        sim("spiral", 350 * k, 5, range(-2, 3), 3, 1, depth=40),
        sim("spiral", 25 * k, 3, {-11, -6, 0, 7, 9}, 1, 4, depth=40),
        lambda: ctx.tlc("Transforms", dict(Kinds={"gen"}, MaxN=5, Coord={0}, MaxSpeed=1), invariants=["Laws", "Emit"], label="generators, exhaustive").rows,
        lambda: ctx.tlc("Transforms", dict(Kinds={"cube", "roll"}, MaxN=2, Coord={0}, MaxSpeed=1), invariants=["Laws", "Emit"], label="cube and roll, exhaustive").rows,
        sim("skew", 60 * k, 4, range(-4, 5), 1, 2),
        sim("inv", 120 * k, 3, range(1, 9), 1, 3),
    )
    rows, seen = [], set()
    for r in [r for p in parts for r in p]:
        key = str((r["cfg"], r["out"].get("x"), r["out"].get("a"), r["out"].get("bx"), r["out"].get("by"), r["out"].get("initial")))
        if key not in seen:
            seen.add(key)
            rows.append((key[:400], r))
    import jax
    import jax.numpy as jnp
    from bmi.transforms import Spiral, half_cube, invert_cdf, normal_cdf, skew_symmetrize, so_generator, swissroll2d

    rng = random.Random(ctx.seed)

    def close(got, want, tol, clause, **d):
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        require(got.shape == want.shape, clause + ": shape", got=got.shape, want=want.shape)
        require(np.allclose(got, want, rtol=0, atol=tol), clause, got=got, want=want, **d)

    for key, r in rows:
        c, o = r["cfg"], r["out"]
        kind = c["kind"]

        def spiral():
            n = c["n"]
            x = np.asarray(o["x"], dtype=float)
            gen = sum(p[2] * so_generator(n, p[0] - 1, p[1] - 1) for p in c["planes"])
            if len(c["planes"]) == 1 and rng.random() < 0.7:
                p = c["planes"][0]
                gen, speed = so_generator(n, p[0] - 1, p[1] - 1), p[2] * math.pi / 2
            else:
                speed = math.pi / 2
            kw = dict(speed=speed)
            if rng.random() < 0.3:
                gen, kw = gen * speed, {}
            if c["init"]:
                m = np.asarray(o["initial"], dtype=float)
                kw["initial"] = rng.choice([m, m.tolist(), jnp.asarray(m)])
            elif rng.random() < 0.5:
                kw["initial"] = None
            s = Spiral(rng.choice([gen, jnp.asarray(gen)]), **kw)
            turns = max(1, max(abs(p[2]) for p in c["planes"]) * o["norm2"])
            scale = (1 + math.sqrt(o["norm2"])) * (1 + (np.abs(o["initial"]).sum() if c["init"] else 0))
            # the single-precision matrix exponential of JAX loses up to ~4e-4 per quarter turn
            tol = 6e-4 * turns * scale
            f = rng.choice([s, jax.jit(s.__call__), lambda v: jax.vmap(s)(jnp.stack([v, v]))[1]])
            y = np.asarray(f(jnp.asarray(x, dtype=jnp.float32)))
            close(y, o["y"], tol, "spiral is initial * exp(speed * |x|^2 * generator) * x", turns=turns)
            if not c["init"]:
                require_close(float(np.sum(y.astype(float) ** 2)), o["norm2"], "norm is preserved", 1.5e-3 * turns, 1e-5)

        def gen():
            n, i, j = c["n"], c["i"], c["j"]
            if o["ok"]:
                a = so_generator(n, i, j)
                close(a, o["a"], 0, "canonical generator")
                if (i, j) == (0, 1):
                    close(so_generator(n), o["a"], 0, "canonical generator (default indices)")
            else:
                require_raises(ValueError, lambda: so_generator(n, i, j), "malformed generator indices are refused", n=n, i=i, j=j)

        def skew():
            a = np.asarray(o["a"], dtype=float)
            for m in (a, jnp.asarray(a), np.asarray(o["a"])):
                close(skew_symmetrize(m), np.asarray(o["skew2"]) / 2.0, 1e-6, "skew part is (a - a^T)/2")
            require(np.array_equal(a, np.asarray(o["a"], dtype=float)), "input is left unchanged")

        def cube():
            for v in (float(o["x"]), jnp.asarray([float(o["x"])]), np.asarray([[float(o["x"])]])):
                got = np.asarray(half_cube(v), dtype=float).ravel()[0]
                require_close(got, o["y"], "half-cube is x sqrt|x|", 2e-6, 1e-6, x=o["x"])

        def roll():
            t = o["t"] * math.pi / 2
            want = [t * o["cos"] / 21, t * o["sin"] / 21]
            got = swissroll2d(jnp.asarray([c["m"] / 6]))
            close(got, want, 2e-6 * (1 + abs(t)), "Swiss roll is t (cos t, sin t)/21", x=f"{c['m']}/6")

        def inv():
            bx, by = np.asarray(o["bx"], dtype=float), np.asarray(o["by"], dtype=float)
            q = rng.sample(o["inv"], min(12, len(o["inv"])))
            ys = np.asarray([a[0][0] / a[0][1] for a in q])
            want = np.asarray([a[1][0] / a[1][1] for a in q])
            delta = rng.choice([None, None, 1e-12, 1e-5, 0.01, 0.6])
            f = lambda v: jnp.interp(v, jnp.asarray(bx), jnp.asarray(by))  # noqa: E731
            kw = {} if delta is None else dict(delta=delta)
            g = invert_cdf(f, x_min=rng.choice([bx[0], int(bx[0])]), x_max=bx[-1], **kw)
            slope = min((b - a) / (d - e) for a, b, e, d in zip(by, by[1:], bx, bx[1:]))
            size = max(np.abs(bx).max(), 1)
            # float32 rounding of x, of y and of f(x)
            tol = (delta or 1e-12) + 5e-7 * size + 1.5e-6 * max(np.abs(by).max(), 1) / slope
            shape = rng.choice([(len(ys),), (len(ys), 1), (1, len(ys))])
            close(g(jnp.asarray(ys).reshape(shape)), want.reshape(shape), tol, "inverse within the tolerance (the end of the interval outside the range)",
                  delta=delta, bx=bx, by=by, y=ys)
            one = g(float(ys[0]))
            require_close(one, want[0], "inverse of a single number", 0, tol)

        ctx.case(key, dict(spiral=spiral, gen=gen, skew=skew, cube=cube, roll=roll, inv=inv)[kind], sample=c)
        ctx.count(kind)

    general(ctx, rng)
    return ctx.finish(
        "model_checking",
        ["spirals of integer vectors by multiples of a quarter turn (general generators are compared with a double-precision exponential)",
         "inverses of piecewise linear functions with integer breakpoints; monotonicity of task transforms on grids"],
        "distinct (map, parameters, argument) with an exact value from the specification",
    )


def general(ctx, rng):
    import jax.numpy as jnp
    import scipy.linalg
    from bmi.benchmark import tasks as bt
    from bmi.benchmark.task import Task
    from bmi.benchmark.tasks.asinh import transform_asinh_task
    from bmi.benchmark.tasks.power import transform_power_task
    from bmi.transforms import Spiral, half_cube, invert_cdf, normal_cdf

    nr = np.random.default_rng(ctx.seed)
    for t in range(ctx.pick(15, 150)):
        n = int(nr.integers(2, 7))
        a = nr.normal(size=(n, n)) * 0.5
        a = 0.5 * (a - a.T)
        init = nr.normal(size=(n, n)) if t % 2 else None
        x = nr.normal(size=n)
        speed = float(nr.choice([1.0, -0.5, 2.0]))

        def spiral():
            R = scipy.linalg.expm(speed * a * float(x @ x))
            want = R @ x if init is None else init @ R @ x
            got = np.asarray(Spiral(a, initial=init, speed=speed)(jnp.asarray(x)), dtype=float)
            require(np.allclose(got, want, atol=3e-5 * (1 + x @ x) * (1 + np.abs(want).max())), "spiral is initial * exp(speed * |x|^2 * generator) * x",
                    got=got, want=want)

        ctx.case(f"general spiral {t} n={n}", spiral)

        def far(norm=float(rng.choice([6.0, 11.0, 40.0, 150.0]))):  # slow spirals far from the origin
            z = x * (norm / np.linalg.norm(x))
            sp = speed / norm**2
            want = scipy.linalg.expm(sp * a * float(z @ z)) @ z
            got = np.asarray(Spiral(a, speed=sp)(jnp.asarray(z)), dtype=float)
            require(np.allclose(got, want, atol=1e-3 * norm), "spiral is initial * exp(speed * |x|^2 * generator) * x", got=got, want=want)

        ctx.case(f"far spiral {t} n={n}", far)

    def malformed():
        for g in (np.zeros((2, 3)), np.zeros(3), np.zeros((2, 2, 2)), np.zeros((3, 2)), np.zeros(())):
            require_raises(ValueError, lambda: Spiral(g), "malformed generator is refused", shape=g.shape)
            require_raises(ValueError, lambda: Spiral(g, initial=np.zeros_like(g)), "malformed generator is refused", shape=g.shape)
        for i in (np.eye(3), np.zeros((2, 3)), np.zeros(2), np.zeros((1, 2, 2)), np.zeros((2, 1)), np.zeros((1, 1)), [1.0, 2.0]):
            require_raises(ValueError, lambda: Spiral(np.zeros((2, 2)), initial=i), "malformed initial matrix is refused", shape=np.shape(i))

    ctx.case("malformed generators", malformed)

    def cdf():
        xs = np.linspace(-5, 5, 401)
        want = np.array([0.5 * math.erfc(-x / math.sqrt(2)) for x in xs])
        got = np.asarray(normal_cdf(jnp.asarray(xs)), dtype=float)
        require(np.allclose(got, want, atol=3e-7), "standard normal distribution function", worst=float(np.abs(got - want).max()))
        hc = np.asarray(half_cube(jnp.asarray(xs)), dtype=float)
        require(np.allclose(hc, np.sign(xs) * np.abs(xs) ** 1.5, atol=1e-5), "half-cube is x sqrt|x|")
        tiny = np.asarray([s * m * 10.0**e for s in (1, -1) for e in range(-12, 9) for m in (1, 3.7)])
        hc = np.asarray(half_cube(jnp.asarray(tiny)), dtype=float)
        require(np.allclose(hc, np.sign(tiny) * np.abs(tiny) ** 1.5, rtol=1e-4, atol=0), "half-cube is x sqrt|x| at every scale", got=hc, x=tiny)
        g = invert_cdf(normal_cdf)
        ps = np.asarray([0.5, 0.25, 0.75, 0.0228, 0.9, 0.01])
        from scipy.stats import norm

        require(np.allclose(np.asarray(g(jnp.asarray(ps)), dtype=float), norm.ppf(ps), atol=3e-5), "inverse of the normal CDF")
        require(np.allclose(np.asarray(g(jnp.asarray([-0.5, 1.5])), dtype=float), [-10, 10], atol=1e-5), "interval end outside the range (defaults -10, 10)")
        for f, lo, hi, inv in ((lambda v: v**3, -2.0, 2.0, np.cbrt), (jnp.exp, -3.0, 3.0, np.log), (lambda v: jnp.arctan(v) / 3, -10.0, 10.0, lambda y: np.tan(3 * y))):
            us = np.linspace(lo * 0.9, hi * 0.9, 23)
            ys = np.asarray(f(jnp.asarray(us)), dtype=float)
            got = np.asarray(invert_cdf(f, x_min=lo, x_max=hi)(jnp.asarray(ys)), dtype=float)
            # forward error: the image of the answer is the requested value up to rounding
            require(np.allclose(np.asarray(f(jnp.asarray(got)), dtype=float), ys, rtol=1e-6, atol=1e-6), "image of the inverse is the value", got=got, want=us)

    ctx.case("normal cdf, half-cube, inverses", cdf)

    class Grid:
        """Sampler whose sample is a given array (both variables)."""

        def __init__(self, a, b):
            self.a, self.b, self.dim_x, self.dim_y = a, b, a.shape[1], b.shape[1]

        dim_total = property(lambda s: s.dim_x + s.dim_y)

        def mutual_information(self):
            return 0.25

        def sample(self, n_points, rng):
            return jnp.asarray(self.a[:n_points]), jnp.asarray(self.b[:n_points])

    def monotone(name, mk, lo, hi):
        def go():
            n = 1201
            g = np.linspace(lo, hi, n)[:, None]
            base = Task(sampler=Grid(np.concatenate([g, -g, g + 0.001], axis=1), np.concatenate([-g, g, 0.5 * g], axis=1)), task_id="b", task_name="b", task_params={})
            x, y = mk(base).sample(n, 0)
            x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
            require(x.shape == (n, 3) and y.shape == (n, 3), "dimensions are kept")
            for cols, signs in ((x, (1, -1, 1)), (y, (-1, 1, 1))):
                for j, s in enumerate(signs):
                    require(bool(np.all(s * np.diff(cols[:, j]) > 0)), f"{name} is strictly increasing in every coordinate", column=j)

        ctx.case(f"monotone {name} on [{lo}, {hi}]", go)

    P = lambda a: (lambda b: transform_power_task(b, alpha=a))  # noqa: E731
    monotone("half-cube", bt.transform_half_cube_task, -6, 6)
    monotone("normal cdf", bt.transform_normal_cdf_task, -3, 3)
    monotone("asinh", transform_asinh_task, -50, 50)
    for lo, hi in ((-12, 0), (0, 12), (-3, 3), (20, 30)):
        monotone("wiggly", bt.transform_wiggly_task, lo, hi)
    for a in (0.5, 1.0, 1.5, 2, 3.0):
        monotone(f"power {a}", P(a), 0.1, 6)
        monotone(f"power {a}", P(a), -6, -0.1)
        monotone(f"power {a}", P(a), -3.003, 3)

    for dx, dy in ((3, 3), (4, 3), (3, 5), (6, 4)):
        def rotation():
            a, b = nr.integers(-5, 6, size=(40, dx)).astype(float), nr.integers(-5, 6, size=(40, dy)).astype(float)
            x, y = bt.transform_rotate_task(Task(sampler=Grid(a, b), task_id="b", task_name="b", task_params={})).sample(40, 1)
            for u, v in ((a, x), (b, y)):
                v = np.asarray(v, dtype=float)
                require(np.allclose(v @ v.T, u @ u.T, atol=2e-3), "rotations preserve norms and angles", worst=float(np.abs(v @ v.T - u @ u.T).max()))
                m = np.linalg.lstsq(u, v, rcond=None)[0]
                require_close(np.linalg.det(m), 1.0, "orientation is preserved", 1e-3, 1e-3)

        ctx.case(f"rotation {dx}x{dy}", rotation)
    for dx, dy, sp, norm in ((2, 3, 1.0, True), (3, 4, 0.5, False), (5, 3, 2.0, True)):
        def sptask():
            a, b = nr.normal(size=(30, dx)), nr.normal(size=(30, dy))
            x, y = bt.transform_spiral_task(Task(sampler=Grid(a, b), task_id="b", task_name="b", task_params={}), speed=sp, normalize_speed=norm).sample(30, 1)
            for u, v in ((a, x), (b, y)):
                require(np.allclose((np.asarray(v, dtype=float) ** 2).sum(1), (u**2).sum(1), atol=1e-3), "spirals preserve the norm")

        ctx.case(f"spiral task {dx}x{dy}", sptask)
