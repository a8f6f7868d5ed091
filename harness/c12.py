"""C12: MINE against spec/Mine.tla.

The critic's class is found by training once; its __call__ is then replaced by a
scripted score that records the points it is evaluated at (and whether under
differentiation), so batches, test evaluations and updates of the unmodified
estimator are observed.
"""
import contextlib
import io
import math
import random

import numpy as np
from harness.lib import require, require_close, require_raises


def quiet():
    s = contextlib.ExitStack()
    s.enter_context(contextlib.redirect_stdout(io.StringIO()))
    s.enter_context(contextlib.redirect_stderr(io.StringIO()))
    return s


def run(ctx):
    k = ctx.pick(1, 10)
    sp = "=={<<1,1>>, <<1,2>>, <<1,4>>, <<3,4>>, <<9,10>>}"
    al = "=={<<1,2>>, <<1,4>>, <<3,4>>, <<9,10>>, <<1,10>>, <<99,100>>}"
    kw = dict(spec="GenSpec", invariants=["Emit"])
    parts = ctx.parallel(
        lambda: ctx.tlc("Mine", dict(Ns={4, 5, 8, 11}, Splits=sp, Alphas=al, MaxSteps=9), simulate=70 * k, depth=20, seed=ctx.seed, label="short", **kw).rows,
        lambda: ctx.tlc("Mine", dict(Ns={8, 12}, Splits=sp, Alphas=al, MaxSteps=30), simulate=25 * k, depth=20, seed=ctx.seed + 1, label="long", **kw).rows,
        lambda: ctx.tlc("Mine", dict(Ns={140, 300}, Splits="=={<<1,1>>, <<1,2>>, <<9,10>>}", Alphas=al, MaxSteps=3), simulate=ctx.pick(6, 40), depth=20, seed=ctx.seed + 2, label="many points", **kw).rows,
        lambda: ctx.tlc("Mine", dict(Ns=set(), Splits=set(), Alphas="=={<<1,2>>, <<1,4>>, <<3,4>>, <<9,10>>, <<1,10>>}", MaxSteps=ctx.pick(4, 5)),
                        spec="SmoothSpec", invariants=["SmoothLaws"], label="smoothing law, exhaustive").rows,
    )
    rng = random.Random(ctx.seed)
    rows, seen = [], set()
    for r in rng.sample(parts[0], min(len(parts[0]), 85 * k)) + rng.sample(parts[1], min(len(parts[1]), 35 * k)) + parts[2]:
        if str(r["cfg"]) not in seen:
            seen.add(str(r["cfg"]))
            rows.append(r)
    W = 7
    ctx.shard(*[(lambda w=w: replay(ctx, rows[w::W])) for w in range(W)], lambda: network(ctx))
    return ctx.finish(
        "model_checking",
        ["scores are logarithms of small integers plus one trainable parameter with derivative 1; at most 12 points and 30 steps, 300 points and 3 steps",
         "corrections are exact rationals for the first steps and double precision afterwards; optimiser: Adam with optax defaults"],
        "distinct training configuration, with the recorded run validated as a behaviour and its updates recomputed",
    )


def replay(ctx, rows):
    import jax
    import jax.numpy as jnp
    from bmi.estimators import MINEEstimator

    probe = MINEEstimator(batch_size=2, max_n_steps=1, train_test_split=None, hidden_layers=[], verbose=False)
    probe.estimate(np.arange(4.0).reshape(-1, 1), np.arange(4.0).reshape(-1, 1))
    critic_cls = type(probe.trained_critic)
    original = critic_cls.__call__

    def leaf(crit):
        return min(jax.tree_util.tree_leaves(crit), key=lambda a: a.size).reshape(-1)[0]

    def execute(r, lr, standardize, form, seed):
        c = r["cfg"]
        n = c["n"]
        f = c["f"]
        order = list(range(1, n + 1))
        random.Random(seed).shuffle(order)
        X = np.asarray(order, dtype=float)[:, None]
        Y = 100 + 3 * np.asarray(order, dtype=float)[:, None]
        sx, sy = (X, Y) if not standardize else ((X - X.mean(0)) / X.std(0), (Y - Y.mean(0)) / Y.std(0))
        A = np.ones((n + 1, n + 1))
        for i in range(1, n + 1):
            for j in range(1, n + 1):
                A[i, j] = 1 + (f[0] * i + f[1] * j + f[2] * i * j) % f[3]
        jo, jx, jy, jA = jnp.asarray(order), jnp.asarray(sx[:, 0]), jnp.asarray(sy[:, 0]), jnp.asarray(np.log(A))
        log = []  # (kind, p, x, y)

        def rec(kind):
            return lambda x, y, p: log.append((kind, float(p), int(x), int(y)))

        @jax.custom_jvp
        def tap(t, x, y, p):
            jax.debug.callback(rec("test"), x, y, p)
            return t

        @tap.defjvp
        def _(primals, tangents):
            t, x, y, p = primals
            jax.debug.callback(rec("train"), x, y, p)
            return t, tangents[0]

        def scripted(self, x, y):
            p = leaf(self)
            i, j = jo[jnp.argmin(jnp.abs(jx - x[0]))], jo[jnp.argmin(jnp.abs(jy - y[0]))]
            t = jA[i, j] + (p - jax.lax.stop_gradient(p))
            return tap(t, i.astype(float), j.astype(float), jax.lax.stop_gradient(p))

        a = c["alpha"]
        est = MINEEstimator(
            batch_size=c["batch"], max_n_steps=c["max"], train_test_split=None if c["split"] == [1, 1] else c["split"][0] / c["split"][1],
            test_every_n_steps=c["every"], learning_rate=lr, hidden_layers=[], smoothing_alpha=a[0] / a[1], standardize=standardize,
            verbose=n % 5 == 0, seed=seed)
        require(est.trained_critic is None, "no trained critic before the first training")
        critic_cls.__call__ = scripted
        try:
            with quiet():
                res = est.estimate_with_info(form(X), form(Y))
            jax.effects_barrier()
        finally:
            critic_cls.__call__ = original
        info = dict(res.additional_information)
        crit = est.trained_critic
        # group by the value of the parameter: one value per number of updates
        ps = []
        for e in log:
            if e[1] not in ps:
                ps.append(e[1])
        groups = []
        for kind, p, x, y in log:
            if not groups or groups[-1][0] != (kind, p):
                groups.append(((kind, p), []))
            groups[-1][1].append((x, y))
        ev = []
        for (kind, p), pairs in groups:
            ps_ = sorted(set(pairs))
            xs = [x for x, y in ps_ if x == y]
            un = dict((x, y) for x, y in ps_ if x != y)
            multi = len(ps_) > len(xs) + len(un) or any(x not in xs for x in un)
            ev.append(dict(k=kind, w=ps.index(p), xs=xs, us=[un.get(x, x) for x in xs] if not multi else []))
        logA = np.log(A)
        for e in ev:
            if e["us"]:
                e["value"] = float(np.mean([logA[x, x] for x in e["xs"]]) - math.log(np.mean([A[x, u] for x, u in zip(e["xs"], e["us"])])))
            else:
                e["value"] = 0.0
        return ev, ps + ([float(leaf(crit))] if crit is not None else []), info, float(res.mi_estimate), crit

    traces, metas = [], []
    for r in rows:
        key = str(r["cfg"])
        rng = random.Random(f"{ctx.seed}-{key}")
        c = r["cfg"]
        lr = rng.choice([1.0, 0.25, 0.03125])
        standardize = rng.random() < 0.4
        form = rng.choice([lambda a: a, lambda a: a.tolist(), lambda a: a.astype(int), lambda a: jnp.asarray(a)])
        seed = rng.choice([0, 1, 42, rng.randrange(10**6)])
        twice = rng.random() < 0.15

        def go():
            ev, ps, info, v, crit = execute(r, lr, standardize, form, seed)
            hist = [(int(a), float(b)) for a, b in info.get("test_history", [])]
            tests = [e for e in ev if e["k"] == "test"]
            vals = [h[1] for h in hist] if len(hist) == len(tests) else [e["value"] for e in tests]
            ranks = {x: i for i, x in enumerate(sorted(set(vals)))}
            for e, x in zip(tests, vals):
                e["rank"] = ranks[x]
            for e, (s, x) in zip(tests, hist):
                require_close(x, e["value"], "reported test value is mean T(x,y) - log mean exp T(x,y')", 1e-5, 1e-5, step=s)
            trains = [e for e in ev if e["k"] == "train"]
            steps = len(trains)
            if not r["toolarge"]:  # the logged training values are the bound on each batch: seen through the diagnostics
                tv = [e["value"] for e in trains]
                w = int(0.1 * len(tv))
                require(bool(info.get("training_too_short_for_diagnostics", False)) == (w < 1), "reported diagnostics: training_too_short_for_diagnostics", got=info, steps=len(tv))
                if w >= 1:
                    ws = [math.fsum(tv[i - w:i]) / w for i in range(w, len(tv) + 1)]
                    for name, big, small in (("max_training_mi_decreased", max(ws), ws[-1]), ("training_mi_still_increasing", ws[-1], ws[-w])):
                        if abs(big - 1.05 * small) > 1e-4 * (1 + abs(big)):
                            require(bool(info.get(name, False)) == (big > 1.05 * small), f"reported diagnostics: {name}", got=info, train=tv)
                            ctx.count(f"{name} compared")
            frac = c["batch"] / max(1, r["ntrain"])
            cover = steps > 0 and (frac >= 1 or r["ntrain"] * (1 - frac) ** (2 * steps) < 1e-13)
            # independence of the two draws and re-shuffling (fails by chance with probability < 1e-12)
            comb = math.comb(r["ntrain"], c["batch"]) if not r["toolarge"] else 1
            if comb > 1 and steps * math.log10(comb) > 12:
                require(any(set(e["xs"]) != set(e["us"]) for e in trains), "the second batch of Y is drawn independently of the first")
                require(any(e["xs"] != trains[0]["xs"] for e in trains), "every step draws a new batch")
                ctx.count("independence checked")
            elif comb == 1 and not r["toolarge"] and steps * math.log10(math.factorial(c["batch"])) > 12:
                require(any(e["xs"] != e["us"] for e in trains), "the second batch of Y is shuffled")
            if tests and len(tests) * math.log10(math.factorial(r["ntest"])) > 12:
                require(any(e["us"] != e["xs"] for e in tests), "test Y are re-shuffled")
                require(len(tests) < 3 or (len(tests) - 1) * math.log10(math.factorial(r["ntest"])) < 12
                        or any(e["us"] != tests[0]["us"] for e in tests), "test Y are re-shuffled at every evaluation")
            exact = {2: 12, 4: 7, 10: 4, 100: 2}[c["alpha"][1]] if c["f"][3] < 100 else 1
            res = dict(nan=math.isnan(v), best=ranks.get(v, ranks.get(np.float32(v).item(), -1)) if not math.isnan(v) else 0,
                       toolarge=bool(info.get("batch_size_larger_than_train", False)),
                       hist=[[a, ranks.get(b, -1)] for a, b in hist], steps=int(info.get("n_training_steps", 0)), critic=crit is not None)
            traces.append(dict(cfg=c, ev=[{a: b for a, b in e.items() if a != "value"} for e in ev], res=res, cover=bool(cover), exact=exact))
            metas.append((key, ev, ps, lr))
            ctx.count("batch too large", int(r["toolarge"]))
            ctx.count("stopped early", int(not r["toolarge"] and res["steps"] < c["max"]))
            if twice:
                ev2, ps2, _, v2, _ = execute(r, lr, standardize, form, seed)
                same = [{a: b for a, b in e.items() if a != "rank"} for e in ev]
                require(ev2 == same and ps == ps2 and (v == v2 or math.isnan(v)), "deterministic function of data, parameters and seed")

        ctx.case(key, go, sample=c, trace=False)

    verdicts = ctx.validate_traces("Mine", traces, dict(Ns=set(), Splits=set(), Alphas=set(), MaxSteps=0))
    for (key, ev, ps, lr), t, v in zip(metas, traces, verdicts):
        if not v["ok"]:
            ctx.report(key, v["clause"], dict(event=v["at"], trace=t["ev"][max(0, v["at"] - 3): v["at"]], result=t["res"]))
            continue

        def updates():
            # derivative of the first term is 1, of the second term batch_t / D_t
            c = t["cfg"]
            alpha = c["alpha"][0] / c["alpha"][1]
            f = c["f"]
            D = m = s = 0.0
            p = ps[0] if ps else 0.0
            trains = [e for e in ev if e["k"] == "train"]
            for i, e in enumerate(trains):
                b = float(np.mean([1 + (f[0] * x + f[1] * u + f[2] * x * u) % f[3] for x, u in zip(e["xs"], e["us"])]))
                D = alpha * b + (1 - alpha) * D
                if i < len(v["corr"]):
                    require_close(b / D, v["corr"][i][0] / v["corr"][i][1], "oracle agrees with the specification", 1e-12, 1e-12)
                g = b / D - 1.0  # descent direction
                m, s = 0.9 * m + 0.1 * g, 0.999 * s + 0.001 * g * g
                d = lr * (m / (1 - 0.9 ** (i + 1))) / (math.sqrt(s / (1 - 0.999 ** (i + 1))) + 1e-8)
                scale = abs(g) if i == 0 else max(abs(g), math.sqrt(s))
                slack = lr * (2e-4 + 1e-5 / max(scale, 1e-9) + 0.02 * (c["alpha"][1] == 100))
                require(abs((ps[i + 1] - ps[i]) + d) <= slack + 2e-6 * (1 + abs(ps[i])), "each update ascends the gradient with the smoothed denominator",
                        step=i + 1, got=ps[i + 1] - ps[i], want=-d, correction=b / D)

        ctx.case("updates " + key, updates)


def network(ctx):
    import jax
    import jax.numpy as jnp
    from bmi.estimators import MINEEstimator

    def initial():
        require(MINEEstimator().trained_critic is None, "no trained critic before the first training")
        for bad in (0.0, 1.0, -0.1, 1.5, 2):
            require_raises(ValueError, lambda: MINEEstimator(smoothing_alpha=bad), "smoothing_alpha must lie strictly between 0 and 1", value=bad)
            require_raises(ValueError, lambda: MINEEstimator(train_test_split=bad), "train_test_split must lie strictly between 0 and 1", value=bad)
        for bad in (0, -3):
            for name in ("batch_size", "max_n_steps", "test_every_n_steps", "learning_rate"):
                require_raises(ValueError, lambda: MINEEstimator(**{name: bad}), f"{name} must be positive", value=bad)
        for ok in (1e-6, 0.5, 0.999999):
            p = MINEEstimator(smoothing_alpha=ok, train_test_split=ok).parameters()
            require(p.smoothing_alpha == ok and p.train_test_split == ok, "accepted parameters are reported")

    ctx.case("parameters", initial)

    # the real network: with constant X the objective does not depend on the shuffle
    nr = np.random.default_rng(ctx.seed)
    for i in range(ctx.pick(6, 30)):
        n, dx, dy = int(nr.integers(6, 15)), int(nr.integers(1, 3)), int(nr.integers(1, 4))
        X, Y = np.ones((n, dx)), nr.normal(size=(n, dy)) * 2 + 1
        hidden, seed, lr = [[], [4], [5, 3]][i % 3], int(nr.integers(0, 99)), [0.05, 0.3][i % 2]

        def net():
            mk = lambda **o: MINEEstimator(**{**dict(batch_size=n, max_n_steps=4, test_every_n_steps=2, train_test_split=None, hidden_layers=hidden,  # noqa: E731
                                                     learning_rate=lr, standardize=False, verbose=False, seed=seed), **o})

            def value(crit):
                T = np.asarray(jax.vmap(crit)(jnp.asarray(X), jnp.asarray(Y)), dtype=float)
                return float(np.mean(T) - math.log(np.mean(np.exp(T))))

            e = mk()
            r = e.estimate_with_info(X, Y)
            shapes = [tuple(la.weight.shape) for la in e.trained_critic.layers]
            require(shapes == list(zip(hidden + [1], [dx + dy] + hidden)), "critic has the requested hidden layers", got=shapes)
            s, v = r.additional_information["test_history"][-1]
            if s == r.additional_information["n_training_steps"]:
                require_close(v, value(e.trained_critic), "reported test value is that of the reported critic", 1e-4, 2e-5)
            z, o = mk(max_n_steps=1, test_every_n_steps=1, learning_rate=1e-30), mk(max_n_steps=1, test_every_n_steps=1)
            v0 = z.estimate(X, Y)
            o.estimate(X, Y)
            require_close(v0, value(z.trained_critic), "test value with the initial critic", 1e-4, 2e-5)
            l1, l0 = [jax.tree_util.tree_leaves(c.trained_critic) for c in (o, z)]
            d = max(float(jnp.max(jnp.abs(a - b))) for a, b in zip(l1, l0))
            require_close(d, lr, "one update with the requested learning rate", 1e-3, 1e-6)
            require(float(e.estimate(X, Y)) == float(r.mi_estimate), "deterministic function of data, parameters and seed")
            ps = e.parameters()
            require((ps.batch_size, ps.max_n_steps, ps.test_every_n_steps, ps.learning_rate, ps.seed, list(ps.hidden_layers), ps.standardize, ps.train_test_split)
                    == (n, 4, 2, lr, seed, hidden, False, None), "parameters are the ones given")

        ctx.case(f"network n={n} {dx}x{dy} hidden={hidden} seed={seed} lr={lr}", net)
