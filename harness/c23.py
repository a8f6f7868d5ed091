"""C23: figures of fixed axes sizes against spec/Layout.tla."""
import random

import numpy as np
from harness.lib import Violation, require


def run(ctx):
    k = ctx.pick(1, 8)
    big = dict(Sizes={3, 8, 11, 16, 24}, Gaps={0, 1, 4, 9}, Margins={0, 1, 4, 7}, Counts="==0..4", Lens="==0..4")
    parts = ctx.parallel(
        lambda: ctx.tlc("Layout", big, invariants=["Laws", "Emit"], simulate=700 * k, depth=60, seed=ctx.seed, label="requests").rows,
        lambda: ctx.tlc("Layout", dict(big, Lens={2, 3, 5}, Counts={2, 3}), invariants=["Laws", "Emit"], simulate=250 * k, depth=60, seed=ctx.seed + 1,
                        label="larger grids").rows,
        lambda: ctx.tlc("Layout", dict(Sizes={8}, Gaps={2}, Margins={1}, Counts="==1..2", Lens="==1..2"), invariants=["Laws", "Emit"],
                        label="all combinations of scalars, lists and counts").rows,
    )
    rows, seen = [], set()
    for p in parts:
        for r in p:
            if str(r) not in seen:
                seen.add(str(r))
                rows.append(r)
    refused = [r for r in rows if not r["ok"]]
    laid = [r for r in rows if r["ok"]]
    if len(laid) < 150 or len(refused) < 50:
        raise RuntimeError(f"{len(laid)} laid out, {len(refused)} refused")
    W = 6
    ctx.shard(*[(lambda w=w: replay(ctx, (laid + refused)[w::W], w)) for w in range(W)])
    ctx.count("laid out", len(laid))
    ctx.count("refused", len(refused))
    return ctx.finish(
        "model_checking",
        ["lengths are multiples of an eighth of an inch; axes positions are read after a draw with the Agg backend, to 1e-6 inch",
         "up to 5 x 5 axes"],
        "distinct request laid out (or refused) by the specification and compared with the figure",
    )


def replay(ctx, rows, w):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from bmi.plot_utils.subplots_from_axsize import subplots_from_axsize

    rng = random.Random(ctx.seed * 10 + w)
    u = 8.0

    def arg(values, scalar):
        v = [a / u for a in values]
        if scalar:
            return rng.choice([v[0], np.float64(v[0]), int(v[0]) if v[0] == int(v[0]) else v[0]])
        return rng.choice([v, tuple(v), np.array(v), (a for a in v)]) if v else rng.choice([[], ()])

    for r in rows:
        q = r["q"]
        kw = dict(
            axsize=(lambda t: rng.choice([t, list(t)]))((arg(q["x"]["sizes"], q["x"]["scalar"]), arg(q["y"]["sizes"], q["y"]["scalar"]))),
            left=q["x"]["before"] / u,
            right=q["x"]["after"] / u,
            top=q["y"]["before"] / u,
            bottom=q["y"]["after"] / u,
            wspace=arg(q["x"]["gaps"], q["x"]["gscalar"]),
            hspace=arg(q["y"]["gaps"], q["y"]["gscalar"]),
        )
        for name, d in (("ncols", "x"), ("nrows", "y")):
            if q[d]["count"] >= 0:
                kw[name] = q[d]["count"]
            elif rng.random() < 0.5:
                kw[name] = None
        squeeze = rng.choice([True, False, None])
        if squeeze is not None:
            kw["squeeze"] = squeeze

        def go():
            plt.close("all")
            try:
                fig, axs = subplots_from_axsize(**kw)
            except Exception:
                require(not r["ok"], "a consistent request is laid out")
                return
            require(r["ok"], "contradicting sizes, gaps and counts are refused", got=np.shape(axs))
            xs, ys = r["xs"], r["ys"]
            nr, nc = len(ys), len(xs)
            if nr * nc == 1:
                require(isinstance(axs, matplotlib.axes.Axes), "a single axes object is returned bare", got=type(axs).__name__)
                grid = np.array([[axs]], dtype=object)
            else:
                want = tuple(r["squeezed"]) if squeeze in (True, None) else (nr, nc)
                require(isinstance(axs, np.ndarray) and axs.shape == want, "shape of the returned array", got=np.shape(axs), want=want)
                grid = axs.reshape(nr, nc)
            require(len(fig.axes) == nr * nc and len({id(a) for a in grid.ravel()}) == nr * nc and all(a.figure is fig for a in grid.ravel()),
                    "the figure has exactly the requested axes", got=len(fig.axes), want=nr * nc)
            W, H = r["total"][0] / u, r["total"][1] / u
            size = fig.get_size_inches()
            require(np.allclose(size, (W, H), atol=1e-9), "figure size is the total", got=size, want=(W, H))
            fig.draw_without_rendering()
            for i in range(nr):
                for j in range(nc):
                    b = grid[i, j].get_position()
                    got = (b.x0 * W, b.width * W, H - b.y1 * H, b.height * H)
                    want = (xs[j][0] / u, xs[j][1] / u, ys[i][0] / u, ys[i][1] / u)
                    for g, v, what in zip(got, want, ("distance from the left", "width", "distance from the top", "height")):
                        if abs(g - v) > 1e-6:
                            raise Violation(f"axes: {what}", row=i, column=j, got=got, want=want)
            plt.close(fig)

        ctx.case(f"{q} squeeze={squeeze}", go)

    if w:
        return

    def defaults():
        fig, ax = subplots_from_axsize()
        require(np.allclose(fig.get_size_inches(), (3 + 0.6, 2 + 0.6)), "default figure", got=fig.get_size_inches())
        fig.draw_without_rendering()
        b = ax.get_position()
        require(np.allclose([b.x0 * 3.6, b.y0 * 2.6, b.width * 3.6, b.height * 2.6], [0.5, 0.5, 3, 2]), "default axes")
        fig, ax = subplots_from_axsize((3, 2), 2, 3)
        require(ax.shape == (2, 3) and np.allclose(fig.get_size_inches(), (9 + 1 + 0.6, 4 + 0.5 + 0.6)), "default gaps", got=fig.get_size_inches())
        plt.close("all")

    ctx.case("defaults", defaults)
