"""C03: closed forms (spec/ClosedForms.tla) and composition (spec/Compose.tla)."""
import random

import numpy as np
from harness import compose
from harness.lib import require, require_close, require_raises


def run(ctx):
    q = ctx.pick(1, 6)
    forms, comp, small, wide, wider = ctx.parallel(
        lambda: ctx.tlc(
            "ClosedForms",
            dict(MaxNum=60 * q, Dens={1, 2, 10, 20, 64}, MaxM=40 * q, MaxK=23),
            invariants=["Continuous", "Emit"],
        ).rows,
        lambda: compose.rows(ctx, "real", 300 * q, 1),
        lambda: compose.rows(ctx, "real", 300 * q, 2, max_ops=3),
        lambda: compose.rows(ctx, "real", 25 * q, 3, max_ops=2, max_dim=60, wide=9),
        lambda: compose.rows(ctx, "real", 10 * q, 4, max_ops=1, max_dim=80, wide=17),
    )
    from bmi.samplers import (
        BaseSampler,
        AdditiveUniformSampler,
        DiscreteUniformMixtureSampler,
        IndependentConcatenationSampler,
        MultivariateDiscreteUniformMixtureSampler,
        TransformedSampler,
        ZeroInflatedPoissonizationSampler,
    )

    rng = random.Random(ctx.seed)
    for r in forms:
        v = r["p"][0] / r["p"][1]
        want = compose.mi_value(r["mi"]) if r["ok"] else None

        def go():
            k = r["kind"]
            if k == "uniform":
                mk = lambda: AdditiveUniformSampler(v)  # noqa: E731
            elif k == "disc":
                mk = lambda: DiscreteUniformMixtureSampler(n_discrete=int(v), use_discrete_x=rng.random() < 0.5)  # noqa: E731
            else:
                mk = lambda: ZeroInflatedPoissonizationSampler(p=v, use_discrete_y=rng.random() < 0.5)  # noqa: E731
            if not r["ok"]:
                require_raises(ValueError, mk, f"{k}: invalid parameter is rejected", value=v)
                return
            s = mk()
            got = s.mutual_information(truncation=r["k"]) if k == "zipk" else s.mutual_information()
            require_close(got, want, f"{k}: closed form", 2e-5, 3e-6, value=v, truncation=r["k"])
            require((s.dim_x, s.dim_y, s.dim_total) == (1, 1, 2), f"{k}: dimensions")
            if k == "uniform":
                require_close(AdditiveUniformSampler.mutual_information_function(v), want, "static formula", 2e-5, 3e-6)
            if k == "disc" and rng.random() < 0.3:
                ms = [int(v), 3, 1, int(v)]
                c = MultivariateDiscreteUniformMixtureSampler(ns_discrete=ms)
                w = sum(float(DiscreteUniformMixtureSampler(n_discrete=m).mutual_information()) for m in ms)
                require_close(c.mutual_information(), w, "multivariate discrete: sum over coordinates", 2e-5, 3e-6)
                require((c.dim_x, c.dim_y) == (4, 4), "multivariate discrete: dimensions")

        ctx.case(f"{r['kind']} {r['p']} K={r['k']}", go)

    for r in comp + small + wide + wider:
        want = compose.mi_value(r["mi"])

        def go():
            s = compose.build(r["prog"])
            require((s.dim_x, s.dim_y, s.dim_total) == (r["dx"], r["dy"], r["dx"] + r["dy"]), "dimensions add up",
                    got=(s.dim_x, s.dim_y))
            require_close(s.mutual_information(), want, "mutual informations add up, maps leave them unchanged", 3e-5, 1e-5)
            require_close(s.mutual_information(), want, "second call", 3e-5, 1e-5)

        ctx.case(str(r["prog"]), go, sample=r)

    class Stub(BaseSampler):
        def __init__(self, a, b, mi):
            super().__init__(dim_x=a, dim_y=b)
            self._mi = mi

        def mutual_information(self):
            return self._mi

        def sample(self, n, rng):
            return np.zeros((n, self.dim_x)), np.zeros((n, self.dim_y))

    def rejects():
        for empty in ([], ()):
            require_raises(ValueError, lambda: IndependentConcatenationSampler(empty), "empty concatenation is rejected")
        require_raises(ValueError, lambda: MultivariateDiscreteUniformMixtureSampler(ns_discrete=[]), "empty concatenation is rejected")
        require_raises(ValueError, lambda: MultivariateDiscreteUniformMixtureSampler(ns_discrete=[3, 0]), "non-positive m is rejected")
        for ax, ay in ((-1, 0), (0, -1), (-1, -1), (2, -1), (-1, 5)):
            require_raises(
                ValueError,
                lambda: TransformedSampler(Stub(3, 3, 1.0), add_dim_x=ax, add_dim_y=ay),
                "negative added dimension is rejected", add=(ax, ay),
            )

    ctx.case("rejections", rejects)

    # order and grouping do not matter; values come from the components at the time of the call
    for t in range(40 * q):
        parts = [Stub(rng.randint(1, 3), rng.randint(1, 3), rng.choice([0.0, 0.25, 1.5, 3.0])) for _ in range(rng.choice([1, 2, 3, 5, 6, 9, 13, 40]))]
        if rng.random() < 0.4:  # one object several times
            parts += rng.choices(parts, k=rng.randint(1, 3))

        def assoc():
            cut = rng.randint(0, len(parts))
            shuffled = parts[:]
            rng.shuffle(shuffled)
            forms = [parts, tuple(parts), shuffled]
            if 0 < cut < len(parts):
                forms.append([IndependentConcatenationSampler(parts[:cut]), IndependentConcatenationSampler(parts[cut:])])
            for f in forms:
                s = IndependentConcatenationSampler(f)
                require((s.dim_x, s.dim_y) == (sum(p.dim_x for p in parts), sum(p.dim_y for p in parts)), "dimensions")
                require_close(s.mutual_information(), sum(p._mi for p in parts), "sum of mutual informations", 1e-5, 1e-6)

        ctx.case(f"grouping {t} {[(p.dim_x, p.dim_y, p._mi) for p in parts]}", assoc)

    return ctx.finish(
        "model_checking",
        ["rational parameters; expressions of up to 4 leaves and 7 operations, concatenations of up to 17 (40 with equal leaves) components; single-precision tolerance 3e-5"],
        "distinct parameter value or sampler expression with an exact symbolic value from the specification",
    )
