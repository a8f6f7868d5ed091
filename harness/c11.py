"""C11: training protocol of the neural estimators against spec/Training.tla.

A scripted critic counts its updates (constant gradient, so Adam moves it by the
learning rate), scripted objectives record the batches that they are given.
"""
import contextlib
import io
import math
import random

import numpy as np
from harness.c13 import FLAGS
from harness.lib import Violation, require, require_close

U = 0.25  # unit of scripted values


def run(ctx):
    k = ctx.pick(1, 10)
    sp = "=={<<1,1>>, <<1,2>>, <<1,4>>, <<3,4>>, <<9,10>>}"
    kw = dict(spec="GenSpec", invariants=["ProtocolLaws", "Emit"])
    parts = ctx.parallel(
        lambda: ctx.tlc("Training", dict(Ns={4, 5, 9, 13}, Splits=sp, MaxSteps=12, Values={-4, 0, 1, 2, 3, 9}), simulate=150 * k, depth=120, seed=ctx.seed, label="short", **kw).rows,
        lambda: ctx.tlc("Training", dict(Ns={8, 16}, Splits=sp, MaxSteps=40, Values={0, 1, 2, 7, 30}), simulate=45 * k, depth=400, seed=ctx.seed + 1, label="long", **kw).rows,
        lambda: ctx.tlc("Training", dict(Ns={700, 1300}, Splits="=={<<1,2>>, <<1,1>>, <<9,10>>}", MaxSteps=4, Values={0, 1, 2}), simulate=ctx.pick(14, 60), depth=60, seed=ctx.seed + 2, label="many points", **kw).rows,
        lambda: ctx.tlc("Training", dict(Ns={6000, 24000}, Splits="=={<<1,2>>, <<3,4>>}", MaxSteps=4, Values={0, 1, 2}), simulate=ctx.pick(6, 25), depth=60, seed=ctx.seed + 3, label="very many points", **kw).rows,
        # liveness and safety on a complete small instance
        lambda: ctx.tlc("Training", dict(Ns={3}, Splits="=={<<1,1>>, <<1,2>>}", MaxSteps=ctx.pick(3, 4), Values={0, 1}), properties=["Terminates"], spec="GenSpec",
                        invariants=["ProtocolLaws"], label="exhaustive").rows,
    )
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from bmi.estimators.neural import NeuralEstimatorBase

    class Counter(eqx.Module):
        w: jax.Array

        def __call__(self, x, y):
            return self.w

    rng = random.Random(ctx.seed)
    traces, meta = [], []
    seen = set()
    rows = []
    for r in parts[0] + parts[1] + parts[2] + parts[3]:
        key = str(r["cfg"])
        if key not in seen:
            seen.add(key)
            rows.append((key, r))

    def execute(r, lr, standardize, shared, form, seed):
        """One run of the real estimator; returns (events, observed result)."""
        c = r["cfg"]
        n = c["n"]
        order = list(range(1, n + 1))
        random.Random(seed).shuffle(order)
        ids = np.asarray(order, dtype=float)
        X = np.stack([ids, -2 * ids], axis=1)
        Y = np.stack([100 + 3 * ids], axis=1)
        if standardize:
            sx, sy = (X - X.mean(0)) / X.std(0), (Y - Y.mean(0)) / Y.std(0)
        else:
            sx, sy = X, Y
        events = []
        by_id = np.argsort(ids)
        sorted_x, sorted_y = sx[by_id], sy[by_id]
        mids = (sorted_x[1:, 0] + sorted_x[:-1, 0]) / 2

        def decode(xs, ys):
            xs, ys = np.asarray(xs, dtype=float), np.asarray(ys, dtype=float)
            if xs.ndim != 2 or ys.ndim != 2 or xs.shape[1:] != (2,) or ys.shape[1:] != (1,) or not len(xs):
                return [], False
            i = np.searchsorted(mids, xs[:, 0])  # the row with the closest first coordinate
            paired = len(xs) == len(ys) and np.allclose(sorted_x[i], xs, atol=1e-3) and np.allclose(sorted_y[i], ys, atol=1e-3)
            return [int(v) + 1 for v in i], bool(paired)

        # script[t]: value of the objective with a critic that has had t updates
        trv = [v * U for v in c["trv"]] + [0.0]
        tev = [0.0] + [v * U for v in c["tev"]]
        if shared:
            trv = tev
        jt, je = jnp.asarray(trv), jnp.asarray(tev)

        def record(kind):
            def cb(w, xs, ys):
                i, p = decode(xs, ys)
                e = dict(k=kind, w=int(round(float(w) / lr)), ids=i, paired=p)
                if shared:
                    e["k"] = "train" if len(i) == c["batch"] else "test"
                if not events or events[-1] != e:
                    events.append(e)
            return cb

        def objective(kind, table):
            def f(critic, xs, ys):
                jax.debug.callback(record(kind), critic.w, xs, ys)
                t = jnp.clip(jnp.round(critic.w / lr).astype(int), 0, len(table) - 1)
                return table[t] + (critic.w - jax.lax.stop_gradient(critic.w))
            return f

        dims = []

        def factory(key, dim_x, dim_y):
            dims.append((int(dim_x), int(dim_y)))
            return Counter(w=jnp.asarray(0.0))

        kw = {}
        if not shared:
            kw["mi_formula_test"] = objective("test", je)
        est = NeuralEstimatorBase(
            mi_formula=objective("train", jt), mi_formula_name="scripted", critic_factory=factory,
            batch_size=c["batch"], max_n_steps=c["max"],
            train_test_split=None if c["split"] == [1, 1] else c["split"][0] / c["split"][1],
            test_every_n_steps=c["every"], learning_rate=lr, standardize=standardize,
            verbose=rng.random() < 0.2, seed=seed, **kw)
        require(est.trained_critic is None, "no trained critic before the first training")
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            res = est.estimate_with_info(form(X), form(Y))
        jax.effects_barrier()
        info = dict(res.additional_information)
        crit = est.trained_critic
        require(all(d == (2, 1) for d in dims), "critic is created for the dimensions of the data", got=dims)
        v = float(res.mi_estimate)
        obs = dict(
            nan=math.isnan(v), best=0 if math.isnan(v) else round(v / U),
            toolarge=bool(info.get("batch_size_larger_than_train", False)),
            hist=[[int(a), round(float(b) / U)] for a, b in info.get("test_history", [])],
            steps=int(info.get("n_training_steps", 0)),
            critic=-1 if crit is None else int(round(float(crit.w) / lr)),
        )
        return events, obs, info, v

    for i, (key, r) in enumerate(rows):
        c = r["cfg"]
        lr = rng.choice([1.0, 0.5, 0.125])
        standardize = rng.random() < 0.4 and c["n"] < 5000
        shared = rng.random() < 0.25 and r["ntest"] != c["batch"]
        form = rng.choice([lambda a: a, lambda a: a.tolist(), lambda a: a.astype(int), lambda a: jnp.asarray(a)])
        seed = rng.choice([0, 1, 42, 7, rng.randrange(10**6)])
        twice = rng.random() < 0.15

        def go():
            ev, obs, info, v = execute(r, lr, standardize, shared, form, seed)
            p = c["batch"] / max(1, r["ntrain"])
            steps = sum(e["k"] == "train" for e in ev)
            cover = steps > 0 and (p >= 1 or r["ntrain"] * (1 - p) ** steps < 1e-13)
            # distinct rows in the union of independent uniform batches: mean minus eight standard deviations
            q = (1 - min(1.0, p)) ** steps
            floor = r["ntrain"] * (1 - q) - 8 * math.sqrt(r["ntrain"] * q * (1 - q)) - 1
            t = dict(cfg=c, ev=ev, res=obs, cover=bool(cover), floor=max(0, int(floor)))
            if shared:
                t["cfg"] = dict(c, trv=([0] + c["tev"])[: c["max"]])
            traces.append(t)
            meta.append(key)
            ctx.count("whole training set seen", int(cover))
            ctx.count("batch too large", int(r["toolarge"]))
            ctx.count("stopped early", int(not r["toolarge"] and obs["steps"] < c["max"]))
            if r["res"]:
                w = r["res"][0]
                if w["nan"]:
                    require(math.isnan(v), "the estimate is NaN only without test evaluations", got=v)
                else:
                    require_close(v, w["best"] * U, "the estimate is the best test value", 1e-6, 1e-6)
                require(obs["hist"] == w["hist"], "the history lists (step, value) of all test evaluations", got=obs["hist"], want=w["hist"])
                require(obs["steps"] == w["steps"], "the reported number of steps is the number performed", got=obs["steps"], want=w["steps"])
                if not shared:
                    for j, f in enumerate(FLAGS):
                        if j >= 2 and w["ties"][j - 2]:
                            continue
                        require(bool(info.get(f, False)) == w["flags"][f], f"reported diagnostics: {f}", got=info, want=w["flags"])
            if twice:
                ev2, obs2, _, v2 = execute(r, lr, standardize, shared, form, seed)
                require(ev == ev2 and obs == obs2 and (v == v2 or math.isnan(v)), "deterministic function of data, parameters and seed",
                        first=obs, second=obs2)

        ctx.case(key, go, sample=c, trace=False)

    for m, v in zip(meta, ctx.validate_traces("Training", traces, dict(Ns=set(), Splits=set(), MaxSteps=0, Values=set()))):
        if not v["ok"]:
            t = traces[v["tid"] - 1]
            ctx.report(m, v["clause"], dict(event=v["at"], trace=t["ev"][max(0, v["at"] - 3): v["at"]], result=t["res"], cfg=t["cfg"]))

    named(ctx, rng)
    return ctx.finish(
        "model_checking",
        ["the critic is abstracted to its number of updates, objectives to scripted values; up to 16 points and 40 steps, up to 24000 points and 4 steps",
         "union of batches is compared with the training set when missing a row has probability below 1e-12"],
        "distinct (sample size, split, batch size, intervals, scripted values), with the recorded run validated as a behaviour",
    )


def named(ctx, rng):
    """The shipped estimators: objective, parameters and critic they train with."""
    import jax
    import jax.numpy as jnp
    from bmi.estimators import DonskerVaradhanEstimator, InfoNCEEstimator, NWJEstimator

    def numpy_value(name, crit, X, Y):
        T = np.asarray(jax.vmap(jax.vmap(crit, in_axes=(None, 0)), in_axes=(0, None))(jnp.asarray(X), jnp.asarray(Y)), dtype=float)
        n = len(T)
        off = T[~np.eye(n, dtype=bool)]
        if name == "InfoNCE":
            return math.log(n) + np.mean(np.diag(T)) - np.mean(np.log(np.sum(np.exp(T), axis=1)))
        if name == "Donsker-Varadhan":
            return np.mean(np.diag(T)) - math.log(np.mean(np.exp(off)))
        return np.mean(np.diag(T)) - np.mean(np.exp(off - 1))

    nr = np.random.default_rng(ctx.seed)
    todo = [(cls, name, b) for cls, name in ((InfoNCEEstimator, "InfoNCE"), (NWJEstimator, "NWJ"), (DonskerVaradhanEstimator, "Donsker-Varadhan"))
            for b in ("quadratic", "linear")]
    for cls, name, backend in todo * ctx.pick(1, 4):
        n, dx, dy = int(nr.integers(8, 20)), int(nr.integers(1, 4)), int(nr.integers(1, 4))
        X = nr.normal(size=(n, dx)) * 2 + 1
        Y = np.concatenate([X, nr.normal(size=(n, 3))], axis=1)[:, :dy] + 0.3 * nr.normal(size=(n, dy))
        std, hidden, lr, seed = bool(nr.integers(0, 2)), [[4, 3], [5], []][int(nr.integers(0, 3))], float(nr.choice([0.25, 0.01])), int(nr.integers(0, 100))
        every, steps = 2, 4

        def go():
            mk = lambda **o: cls(**{**dict(batch_size=n, max_n_steps=steps, train_test_split=None, test_every_n_steps=every, learning_rate=lr,  # noqa: E731
                                           hidden_layers=hidden, standardize=std, verbose=False, seed=seed, _train_backend=backend), **o})
            e = mk()
            p = e.parameters()
            for a, w in (("mi_formula", name), ("batch_size", n), ("max_n_steps", steps), ("train_test_split", None), ("test_every_n_steps", every),
                         ("learning_rate", lr), ("standardize", std), ("seed", seed)):
                require(getattr(p, a) == w, f"parameter {a} is the one given", got=getattr(p, a))
            require(list(p.critic_params.hidden_layers) == hidden, "hidden layers are the ones given")
            r = e.estimate_with_info(X, Y)
            h = r.additional_information["test_history"]
            sx, sy = (X, Y) if not std else ((X - X.mean(0)) / X.std(0), (Y - Y.mean(0)) / Y.std(0))
            shapes = [tuple(la.weight.shape) for la in e.trained_critic.layers]
            ins = [dx + dy] + hidden
            require(shapes == list(zip(hidden + [1], ins)), "critic has the requested hidden layers", got=shapes)
            if h[-1][0] == r.additional_information["n_training_steps"]:
                w = numpy_value(name, e.trained_critic, sx, sy)
                require_close(h[-1][1], w, "reported test value is the bound of the reported critic on the whole test set", 1e-4, 2e-5)
            # one step moves every parameter by (at most) the learning rate; an untouched critic gives the start
            one, zero = mk(max_n_steps=1, test_every_n_steps=1), mk(max_n_steps=1, test_every_n_steps=1, learning_rate=1e-30)
            one.estimate(X, Y)
            z = zero.estimate(X, Y)
            l1, l0 = [jax.tree_util.tree_leaves(c.trained_critic) for c in (one, zero)]
            d = max(float(jnp.max(jnp.abs(a - b))) for a, b in zip(l1, l0))
            require_close(d, lr, "one update with the requested learning rate", 1e-3, 1e-6)
            w0 = numpy_value(name, zero.trained_critic, sx, sy)
            require_close(z, w0, "test value with the initial critic", 1e-4, 2e-5)
            # Adam's first step is along the sign of the gradient of the objective on the full batch
            h0 = 1e-2
            for a, b in zip(l1, l0):
                require(bool(jnp.all(jnp.isfinite(a))), "critic stays finite")
            # the step increases the objective to first order
            small = mk(max_n_steps=1, test_every_n_steps=1, learning_rate=1e-3)
            s = small.estimate(X, Y)
            require(float(s) >= w0 - 1e-5, "updates ascend the objective", before=w0, after=s)
            require(float(mk().estimate(X, Y)) == float(r.mi_estimate), "deterministic function of data, parameters and seed")

        ctx.case(f"named {name} {backend} n={n} {dx}x{dy} std={std} hidden={hidden} lr={lr} seed={seed}", go)
