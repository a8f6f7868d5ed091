"""C06: covariance builders against spec/Covariance.tla."""
import random

import numpy as np
from harness.lib import require, require_close, require_raises

NONE = 99


def run(ctx):
    n = ctx.pick(1, 12)
    runs = [
        (dict(Kinds=["lvm"]), 4, range(-2, 4), 350),
        (dict(Kinds=["sparse"]), 4, range(-2, 4), 250),
        (dict(Kinds=["dense"]), 4, range(-2, 4), 120),
        (dict(Kinds=["pcm"]), 4, range(-5, 6), 400),
        (dict(Kinds=["canon"]), 4, range(-4, 5), 120),
        (dict(Kinds=["lvm", "sparse"]), 7, (-3, 0, 1, 2, 5), 60),
    ]

    def one(i):
        kinds, maxdim, weights, num = runs[i]
        return ctx.tlc(
            "Covariance",
            dict(Kinds=set(kinds["Kinds"]), MaxDim=maxdim, Weights=set(weights)),
            invariants=["Laws", "Emit"],
            simulate=num * n,
            depth=14,
            seed=ctx.seed * 10 + i,
            label=f"{kinds['Kinds']} up to {maxdim}",
        ).rows

    # a complete enumeration on a small domain
    def full(kind, w):
        return lambda: ctx.tlc(
            "Covariance", dict(Kinds={kind}, MaxDim=2, Weights=set(w)), invariants=["Laws", "Emit"], label=f"{kind} exhaustive"
        ).rows

    parts = ctx.parallel(
        *[lambda i=i: one(i) for i in range(len(runs))], full("sparse", (-1, 0, 2)), full("pcm", (-5, -4, 0, 3)), full("dense", range(-2, 4))
    )
    rows = [r for p in parts for r in p]
    seen = set()
    rng = random.Random(ctx.seed)

    from bmi.samplers import (
        DenseLVMParametrization,
        GaussianLVMParametrization,
        SparseLVMParametrization,
        canonical_correlation,
        parametrised_correlation_matrix,
    )

    for r in rows:
        c, key = r["cfg"], str((r["cfg"], r["args"]))
        if key in seen:
            continue
        seen.add(key)
        kind, dx, dy, k = c["kind"], c["dx"], c["dy"], c["k"]
        unit = 0.25 if kind in ("pcm", "canon") else rng.choice([1.0, 1.0, 0.5, 0.125, 3.0, 0.1])
        omitted = [a == NONE for a in r["args"]]
        if kind != "pcm" and any(omitted):
            unit = 1.0  # defaults are absolute numbers
        kw = {s: a * unit if not (unit == 1.0 and rng.random() < 0.5) else a
              for s, a in zip(r["slots"], r["args"]) if a != NONE and kind != "canon"}
        # an argument left out may equivalently be given as None
        for s, a in zip(r["slots"], r["args"]):
            if a == NONE and s in ("epsilon_y", "beta_y", "eta_y", "eta") and rng.random() < 0.5:
                kw[s] = None
        tol = dict(rtol=0.0, atol=0.0) if unit in (1.0, 0.5, 0.25, 0.125) else dict(rtol=1e-12, atol=1e-12)

        def make():
            if kind == "lvm":
                return GaussianLVMParametrization(dim_x=dx, dim_y=dy, n_interacting=k, **kw)
            if kind == "dense":
                return DenseLVMParametrization(dim_x=dx, dim_y=dy, **kw)
            if kind == "sparse":
                return SparseLVMParametrization(dim_x=dx, dim_y=dy, n_interacting=k, **kw)
            if kind == "pcm":
                return parametrised_correlation_matrix(dim_x=dx, dim_y=dy, k=k, **kw)
            rho = [a * unit for a in r["args"]]
            rho = rng.choice([rho, np.asarray(rho), tuple(rho)])
            if dy == dx and rng.random() < 0.5:
                return canonical_correlation(rho)
            return canonical_correlation(rho, additional_y=dy - dx)

        def same(got, want, clause):
            got = np.asarray(got)
            want = np.asarray(want, dtype=float)
            require(got.shape == want.shape, clause + ": shape", got=got.shape, want=want.shape)
            require(np.allclose(got, want, **tol), clause, got=got, want=want)

        def go():
            if not r["ok"]:
                require_raises(ValueError, make, f"{kind}: arguments out of range are refused", cfg=c, kw=kw)
                return
            o = r["out"][0]
            p = make()
            if kind in ("pcm", "canon"):
                same(p, np.asarray(o["cov"]) * 0.25, "entries of the matrix")
                return
            cov = np.asarray(o["cov"], dtype=float) * unit**2
            mixing = np.asarray(o["mixing"], dtype=float) * unit
            for _ in range(2):
                same(p.mixing, mixing, "mixing has the documented loadings")
                same(p.covariance, cov, "covariance is mixing times its transpose")
            require(p.n_latent == mixing.shape[1], "number of latent variables", got=p.n_latent)
            names = [f"$U_\\mathrm{{{l[0][1:]}}}$" if l[0] == "Uall" else f"${l[0][0]}_{l[0][1:] or l[1]}$" for l in o["latents"]]
            require(list(p.latent_variable_labels) == names, "labels of the latent variables", got=p.latent_variable_labels, want=names)
            xy = [f"$X_{i + 1}$" for i in range(dx)] + [f"$Y_{i + 1}$" for i in range(dy)]
            require(list(p.xy_labels) == xy, "labels of the variables", got=p.xy_labels)
            for a in ("alpha", "lambd", "epsilon_x", "epsilon_y", "beta_x", "beta_y", "eta_x", "eta_y"):
                require_close(getattr(p, a), o["eff"][a] * unit, f"effective weight {a}", 1e-12, 1e-12)
            require((p.dim_x, p.dim_y, p.n_interacting) == (dx, dy, o["eff"]["k"]), "reported dimensions")
            var = np.diag(cov)
            if np.all(var > 0):
                corr = cov / np.sqrt(np.outer(var, var))
                require(np.allclose(p.correlation, corr, rtol=1e-12, atol=1e-12), "correlation is the scaled covariance",
                        got=p.correlation, want=corr)
                if kind == "dense" and dx + dy > 1:
                    require_close(p.correlation_strength, corr[0, 1], "reported correlation strength", 1e-12, 1e-12)
                if kind == "sparse" and k >= 1:
                    require_close(p.correlation_interacting, corr[0, dx], "reported correlation strength", 1e-12, 1e-12)

        ctx.case(f"{kind} {dx}x{dy} k={k} {r['args']} unit={unit}", go, sample=r["args"])
        ctx.count(kind if r["ok"] else kind + " refused")

    return ctx.finish(
        "model_checking",
        ["integer loadings times a common unit; dimensions up to 7", "parametrised-correlation entries are multiples of 1/4"],
        "distinct (builder, dimensions, n_interacting, arguments) whose covariance the specification computes from the generative model",
    )
