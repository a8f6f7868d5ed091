"""Builds the samplers described by programs of spec/Compose.tla."""
import math

import numpy as np

INV = ["ShapesOK", "Emit"]


def rows(ctx, mode, num, offset, max_ops=7, max_dim=None, wide=0):
    r = ctx.tlc(
        "Compose",
        dict(Mode=mode, MaxLeaves=wide or 4, MaxOps=max_ops + wide, MaxDim=max_dim or (8 if mode == "stub" else 6), RowCounts="==1..5", Wide=bool(wide)),
        invariants=INV,
        simulate=num,
        depth=100,
        seed=ctx.seed * 1000 + offset,
        label=f"{mode} max_ops={max_ops}" + (f" {wide} components" if wide else ""),
    )
    seen, out = set(), []
    for x in r.rows:
        k = repr((x["prog"], x["n"] if mode == "stub" else 0))
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def mi_value(terms):
    t = []
    for e in terms:
        c = e["c"][0] / e["c"][1]
        if e["f"] == "one":
            t.append(c)
        elif e["f"] == "gamma":
            t.append(c * float(np.euler_gamma))
        else:
            t.append(c * (math.log(e["a"][0]) - math.log(e["a"][1])))
    return math.fsum(t)


def point_map(name):
    import jax.numpy as jnp

    if name == "none":
        return None
    return {
        "double": lambda v: 2 * v,
        "negate": lambda v: -v,
        "shift": lambda v: v + jnp.arange(1, v.shape[0] + 1),
        "reverse": lambda v: v[::-1],
        "append": lambda v: jnp.concatenate([v, jnp.sum(v)[None]]),
        "repeat": lambda v: jnp.concatenate([v[:1], v, v[-1:]]),
    }[name]


def array_map(name):
    import jax.numpy as jnp

    if name == "none":
        return None
    return {
        "double": lambda v: 2 * v,
        "negate": lambda v: -v,
        "shift": lambda v: v + jnp.arange(1, v.shape[1] + 1)[None, :],
        "reverse": lambda v: v[:, ::-1],
        "append": lambda v: jnp.hstack([v, jnp.sum(v, axis=1, keepdims=True)]),
        "repeat": lambda v: jnp.hstack([v[:, :1], v, v[:, -1:]]),
        "minusfirst": lambda v: v - v[:1],
    }[name]


def build(prog, leaf=None, wrap_map=None):
    """leaf(kind, params) -> sampler for stub leaves; wrap_map(f, vectorise, which) instruments maps."""
    from bmi.samplers import (
        AdditiveUniformSampler,
        DiscreteUniformMixtureSampler,
        IndependentConcatenationSampler,
        MultivariateDiscreteUniformMixtureSampler,
        SplitMultinormal,
        TransformedSampler,
        ZeroInflatedPoissonizationSampler,
        bmm,
    )

    stack = []
    for op in prog:
        k = op[0]
        if k == "stub":
            stack.append(leaf(op[1]))
        elif k == "gauss":
            g = op[1]
            stack.append(
                SplitMultinormal(dim_x=g["dx"], dim_y=g["dy"], covariance=np.array(g["s"], float), mean=np.array(g["mu"], float))
            )
        elif k == "bmmgauss":
            g = op[1]
            d = bmm.MultivariateNormalDistribution(
                dim_x=g["dx"], dim_y=g["dy"], covariance=np.array(g["s"], float), mean=np.array(g["mu"], float)
            )
            stack.append(bmm.BMMSampler(d, mi=d.analytic_mi))
        elif k == "uniform":
            stack.append(AdditiveUniformSampler(op[1][0] / op[1][1]))
        elif k == "disc":
            stack.append(DiscreteUniformMixtureSampler(n_discrete=op[1]))
        elif k == "multidisc":
            stack.append(MultivariateDiscreteUniformMixtureSampler(ns_discrete=op[1]))
        elif k == "zip":
            stack.append(ZeroInflatedPoissonizationSampler(p=op[1][0] / op[1][1]))
        elif k == "concat":
            c = op[1]
            parts = stack[len(stack) - c :]
            stack = stack[: len(stack) - c] + [IndependentConcatenationSampler(parts)]
        elif k == "transform":
            _, f, g, vec, ax, ay = op
            mk = point_map if vec else array_map
            fx, fy = mk(f), mk(g)
            if wrap_map is not None:
                fx = wrap_map(fx, vec, "x") if fx is not None else None
                fy = wrap_map(fy, vec, "y") if fy is not None else None
            kw = {}
            if fx is not None:
                kw["transform_x"] = fx
            if fy is not None:
                kw["transform_y"] = fy
            if ax:
                kw["add_dim_x"] = ax
            if ay:
                kw["add_dim_y"] = ay
            if not vec:
                kw["vectorise"] = False
            stack.append(TransformedSampler(stack.pop(), **kw))
        else:
            raise ValueError(k)
    assert len(stack) == 1
    return stack[0]
