"""C22: array and timing utilities against spec/Utilities.tla."""
import importlib
import math
import random
import time

import numpy as np
from harness.lib import require, require_close, require_raises

NONE = 1000


def run(ctx):
    k = ctx.pick(1, 15)
    base = dict(MaxN=2, MaxC=2, Coord={0}, MaxRows=1, MaxDim=1, MaxCalls=1)
    parts = ctx.parallel(
        lambda: ctx.tlc("Utilities", dict(base, Kinds={"chunk"}, MaxN=ctx.pick(26, 90), MaxC=ctx.pick(29, 93)), invariants=["Laws", "Emit"], label="chunks, exhaustive").rows,
        lambda: ctx.tlc("Utilities", dict(base, Kinds={"space"}, Coord=set(range(-4, 5)), MaxRows=6, MaxDim=3), invariants=["Laws", "Emit"],
                        simulate=250 * k, depth=60, seed=ctx.seed * 10 + 1, label="product spaces").rows,
        lambda: ctx.tlc("Utilities", dict(base, Kinds={"space"}, Coord={-1, 2, 7}, MaxRows=9, MaxDim=2), invariants=["Laws", "Emit"],
                        simulate=150 * k, depth=60, seed=ctx.seed * 10 + 2, label="longer product spaces").rows,
        lambda: ctx.tlc("Utilities", dict(base, Kinds={"timer"}, MaxCalls=9), invariants=["Laws", "Emit"], simulate=120 * k, depth=200,
                        seed=ctx.seed * 10 + 3, label="timer histories").rows,
    )
    import jax.numpy as jnp
    from bmi.utils import ProductSpace, add_noise, chunker

    rng = random.Random(ctx.seed)
    seen = set()
    for r in [r for p in parts for r in p]:
        c, o = r["cfg"], r["out"]
        kind = c["kind"]
        key = str((c, o.get("x"), o.get("y"), o.get("log")))[:600]
        if key in seen:
            continue
        seen.add(key)

        def chunk():
            n, s = c["n"], c["c"]
            if not o["ok"]:
                require_raises(ValueError, lambda: list(chunker(n, s)), "non-positive arguments are refused", n=n, chunk_size=s)
                return
            got = list(chunker(n, s) if rng.random() < 0.5 else chunker(n_items=n, chunk_size=s))
            items = list(range(100, 100 + n))
            parts = [items[g] for g in got]
            require([(p[0] - 100, p[-1] - 99) for p in parts if p] == [tuple(v) for v in o["chunks"]] and all(parts),
                    "chunks are consecutive, non-empty, as long as allowed and cover all items", got=str(got)[:300], want=o["chunks"][:10])
            require(all(isinstance(g, slice) for g in got), "chunks are slices")
            arr = np.asarray(items)
            require(np.array_equal(np.concatenate([arr[g] for g in got]), arr), "chunks of an array")

        def space():
            x, y = o["x"], o["y"]
            half = sum(map(sum, x)) % 3 == 0  # Y in halves, kept as floats
            mk = lambda a: rng.choice([lambda: [list(v) for v in a], lambda: np.asarray(a), lambda: np.asarray(a, dtype=float), lambda: jnp.asarray(a),  # noqa: E731
                                       lambda: np.asfortranarray(np.asarray(a, dtype=float)), lambda: tuple(map(tuple, a))])()
            if half:
                y = [[v / 2 for v in w] for w in y]
            ax, ay = mk(x), mk(y)
            fx, fy = np.array(ax, dtype=float), np.array(ay, dtype=float)
            n, dx, dy = c["n"], c["dx"], c["dy"]
            raw = ProductSpace(ax, ay, standardize=False)
            std = ProductSpace(ax, ay) if rng.random() < 0.5 else ProductSpace(x=ax, y=ay, standardize=True)
            require(np.array_equal(np.array(ax, dtype=float), fx) and np.array_equal(np.array(ay, dtype=float), fy), "the given arrays are unchanged")

            def standardised(a, mom, scale=1):
                cols = []
                for j, (m, v) in enumerate(mom):
                    m, v = m[0] / m[1] / scale, v[0] / v[1] / scale**2
                    cols.append((a[:, j] - m) / (math.sqrt(v) if v else 1.0))
                return np.stack(cols, axis=1)

            for s, wx, wy, what in ((raw, fx, fy, "stored as given"), (std, standardised(fx, o["mx"]), standardised(fy, o["my"], 1 + half), "zero mean and unit variance")):
                require(len(s) == n and (s.dim_x, s.dim_y) == (dx, dy), "length and dimensions", got=(len(s), s.dim_x, s.dim_y))
                w = np.hstack([wx, wy])

                def same(got, want, clause):
                    got = np.asarray(got, dtype=float)
                    require(got.shape == want.shape and np.allclose(got, want, atol=1e-9 if what != "stored as given" else 0), clause, got=got, want=want, x=x, y=y)

                same(s.x, wx, f"X is {what}")
                same(s.y, wy, f"Y is {what}")
                same(s.xy, w, "joint view is X followed by Y")
                sl = o["slice"]["s"]
                real = slice(*[None if sl[f] == NONE else sl[f] for f in ("start", "stop")], sl["step"])
                same(s[real], w[o["slice"]["rows"]].reshape(-1, dx + dy), f"slice {real} is those rows, X followed by Y")
                for i, row in o["ints"]:
                    if row < 0:
                        require_raises(IndexError, lambda: s[i], "index out of range", i=i)
                    else:
                        same(s[i], w[row], f"index {i} is that row")
            # copies: later changes of the given arrays are not seen
            if isinstance(ax, np.ndarray) and ax.flags.writeable:
                ax += 1
                require(np.array_equal(np.asarray(raw.x, dtype=float), fx), "the space holds a copy of X")
            if isinstance(ay, np.ndarray) and ay.flags.writeable:
                ay *= -3
                require(np.array_equal(np.asarray(raw.y, dtype=float), fy), "the space holds a copy of Y")
            for st in (True, False):
                require_raises(ValueError, lambda: ProductSpace(x, y + [y[0]], standardize=st), "arrays of different length are refused")
                require_raises(ValueError, lambda: ProductSpace(x + [x[0]], y, standardize=st), "arrays of different length are refused")

        def timer():
            clock = [0.0]
            names = [nm for nm in ("perf_counter", "time", "monotonic", "process_time") if hasattr(time, nm)]
            saved = {nm: getattr(time, nm) for nm in names + [nm + "_ns" for nm in names]}
            off = rng.choice([0.0, 1000.0, -5.0])
            try:
                for nm in names:
                    setattr(time, nm, lambda: off + clock[0])
                    setattr(time, nm + "_ns", lambda: int((off + clock[0]) * 10**9))
                import bmi.benchmark.utils.timer as tm

                tm = importlib.reload(tm)
                ts = {}
                for i, e in enumerate(o["log"]):
                    clock[0] = float(e["at"])
                    t = ts.get(e["t"])
                    if e["op"] == "new":
                        ts[e["t"]] = tm.Timer()
                    elif e["op"] == "reset":
                        require(t.reset() is None, "reset returns nothing")
                    else:
                        got = t.check() if e["op"] == "check" else t.check_and_reset()
                        require_close(got, e["value"], "time since the last reset", 0, 1e-6, call=i, history=o["log"])
            finally:
                for nm, f in saved.items():
                    setattr(time, nm, f)
                import bmi.benchmark.utils.timer as tm

                importlib.reload(tm)

        ctx.case(key, dict(chunk=chunk, space=space, timer=timer)[kind], sample=c)
        ctx.count(kind)

    def big_chunks():
        for _ in range(40):
            n, s = rng.randrange(1, 10**6), rng.choice([1, 7, 1000, 10**6, 10**7, rng.randrange(1, 10**6)])
            if n // s > 5000:
                continue
            got = [(g.start or 0, min(g.stop, n)) for g in chunker(n, s)]
            require(got == [(a, min(n, a + s)) for a in range(0, n, s)], "chunks are consecutive, non-empty, as long as allowed and cover all items", n=n, chunk_size=s)

    ctx.case("large chunk arguments", big_chunks)

    def noise(shape, dtype, seed):
        def go():
            nr = np.random.default_rng(seed)
            p = nr.integers(-5, 6, size=shape).astype(dtype)
            arg = rng.choice([lambda: p, lambda: p.tolist(), lambda: jnp.asarray(p)])()
            keep = np.array(p)
            f = p.astype(float)
            e1 = np.asarray(add_noise(arg, noise_std=1.0, rng_key=seed)) - f
            for std in (0.5, 3.0, 1e-2):
                e = np.asarray(add_noise(arg, noise_std=std, rng_key=seed)) - f
                require(np.allclose(e, std * e1, rtol=1e-6, atol=2e-6), "noise scales with noise_std", std=std)
            out = np.asarray(add_noise(arg, 1.0, seed))
            require(out.shape == tuple(shape), "shape is kept", got=out.shape)
            require(np.array_equal(out, np.asarray(add_noise(arg, 1.0, rng_key=seed))), "noise is determined by the seed")
            require(np.array_equal(p, keep), "input is unchanged")
            require(np.allclose(np.asarray(add_noise(arg, noise_std=0.0, rng_key=seed)), f, atol=1e-6), "no noise for noise_std 0")
            small = np.asarray(add_noise(arg)) - f
            require(np.abs(small).max() < 1e-3, "the default noise is small")
            if np.prod(shape) >= 4:
                other = [np.asarray(add_noise(arg, 1.0, s)) - f for s in [seed + d for d in (1, 2, 100, 1000, 1024, 2**16, 2**20, 10**6, 2**31, 2**32)]]
                for i, u in enumerate(other):
                    require(not np.allclose(e1, u), "different seeds give different noise", number=i)
            if np.prod(shape) >= 100:
                m = e1.size
                require(abs(e1.mean()) < 5 / math.sqrt(m) and abs(e1.std() - 1) < 5 / math.sqrt(2 * m), "noise has mean 0 and the given standard deviation", mean=e1.mean(), std=e1.std())
                require(np.abs(np.corrcoef(e1.ravel()[:-1], e1.ravel()[1:])[0, 1]) < 5 / math.sqrt(m), "noise is independent between entries")
        return go

    for shape in ((1, 1), (4, 1), (5, 3), (3,), (200, 2), (40, 5), (2, 3, 2)):
        for dtype in (int, float, np.float32, np.int8):
            for s in range(ctx.pick(2, 12)):
                ctx.case(f"noise {shape} {dtype.__name__} seed {ctx.seed * 100 + s}", noise(shape, dtype, ctx.seed * 100 + s))
    return ctx.finish(
        "model_checking",
        ["chunk arguments exhaustive up to the bound plus large random ones; small integer arrays with all Python slices of the bound",
         "clock scripted through the functions of the time module"],
        "distinct (arguments / arrays / histories) with the outcome of the specification",
    )
