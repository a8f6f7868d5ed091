"""C13: training diagnostics against spec/TrainLog.tla."""
import contextlib
import io
import math
import random

import numpy as np
from harness.lib import require, require_close, require_raises

UNIT = 257 / 1024  # exact in single precision, and no multiple of 1/100
FLAGS = ("early_stopping_not_triggered", "training_too_short_for_diagnostics",
         "max_training_mi_decreased", "training_mi_still_increasing")


def run(ctx):
    k = ctx.pick(1, 12)
    fac = "=={<<1,10>>, <<1,2>>, <<1,4>>, <<3,8>>, <<0,1>>, <<1,20>>}"
    parts = ctx.parallel(
        lambda: ctx.tlc("TrainLog", dict(TrainValues={0, 1}, TestValues={1, 2}, Factors="=={<<1,2>>}", MaxLen=3, Gaps={1}),
                        invariants=["Laws", "Emit"], properties=["Monotone"], label="exhaustive").rows,
        lambda: ctx.tlc("TrainLog", dict(TrainValues=set(range(-4, 5)) | {20, 21, 100}, TestValues={-1000, -3, -1, 0, 1, 2, 5}, Factors=fac, MaxLen=12, Gaps={0, 1, 2}),
                        invariants=["Laws", "Emit"], properties=["Monotone"], simulate=500 * k, depth=80, seed=ctx.seed, label="short").rows,
        lambda: ctx.tlc("TrainLog", dict(TrainValues={-1, 18, 19, 20, 21, 22}, TestValues={0, 1, 2, 3, 4, 9}, Factors=fac, MaxLen=45, Gaps={1}),
                        invariants=["Laws", "Emit"], properties=["Monotone"], simulate=150 * k, depth=300, seed=ctx.seed + 1, label="long").rows,
    )
    rows = []
    seen = set()
    rng = random.Random(ctx.seed)
    first = parts[0]
    if len(first) > 3000 * k:
        first = rng.sample(first, 3000 * k)
    for r in first + parts[1] + parts[2]:
        key = str((r["cfg"], r["train"], r["test"]))
        if key not in seen:
            seen.add(key)
            rows.append((key, r))
    import jax.numpy as jnp
    from bmi.estimators.neural._training_log import TrainingLog

    def value(v, unit=UNIT):
        return -math.inf if v == -1000 else v * unit

    forms = [float, float, np.float32, lambda v: jnp.asarray(v, dtype=jnp.float32), lambda v: np.float64(v)]

    for key, r in rows:
        c = r["cfg"]
        # merge the two histories: a test value logged at step s comes after the training value of s
        merged = sorted([(s, 0, i, "train", v) for i, (s, v) in enumerate(r["train"])]
                        + [(s, 1, i, "test", v) for i, (s, v) in enumerate(r["test"])])
        cheap = len(merged) > 20 or rng.random() < 0.8
        form = float if cheap else rng.choice(forms)
        verbose, bar = rng.choice([(False, False), (False, True), (True, False), (True, True)])
        tu = rng.choice([UNIT, UNIT, UNIT * 2.0**-12, UNIT * 2.0**9])  # test values decide by their order only
        explicit = c["factor"] != [1, 10] or rng.random() < 0.5

        def go():
            kw = dict(max_n_steps=rng.choice([1, 10, 1000]), early_stopping=c["early"], verbose=verbose, enable_tqdm=bar,
                      train_history_in_additional_information=c["train_history"],
                      test_history_in_additional_information=c["test_history"])
            if explicit:
                kw["train_smooth_factor"] = c["factor"][0] / c["factor"][1]
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                log = TrainingLog(**kw)
                require(not log.early_stop(), "does not ask to stop before any test value")
                require(math.isnan(log.final_mi), "final value is NaN without test values")
                nt = 0
                for s, _, _, kind, v in merged:
                    if kind == "train":
                        log.log_train_mi(s, form(value(v)))
                    else:
                        log.log_test_mi(s, form(value(v, tu)))
                        nt += 1
                    require(bool(log.early_stop()) == (nt > 0 and r["stop"][nt - 1]), "asks to stop exactly after two test values without a new best",
                            after=[value(t[1], tu) for t in r["test"][:nt]], got=log.early_stop())
                log.finish()
                info = dict(log.additional_information)
                final = log.final_mi
            if r["final"]:
                require_close(final, value(r["final"][0], tu), "final value is the maximum of the test values", 1e-6, 1e-12)
            else:
                require(math.isnan(float(final)), "final value is NaN without test values")
            require(info.get("n_training_steps") == r["last"], "number of training steps", got=info.get("n_training_steps"), want=r["last"])
            for i, f in enumerate(FLAGS):
                if i >= 2 and r["ties"][i - 2]:
                    continue
                require(bool(info.get(f, False)) == r["flags"][f], f"flag {f}", got=info.get(f), want=r["flags"][f],
                        train=[value(t[1]) for t in r["train"]], factor=c["factor"], test=[value(t[1], tu) for t in r["test"]])
            for name, asked, h, u in (("training_history", c["train_history"], r["train"], UNIT), ("test_history", c["test_history"], r["test"], tu)):
                require((name in info) == asked, f"{name} is reported iff asked for")
                if asked:
                    got = [(int(a), float(b)) for a, b in info[name]]
                    require(got == [(s, float(value(v, u))) for s, v in h], f"{name} lists every logged value", got=got, want=h)

        ctx.case(key, go, sample=dict(train=r["train"][:6], test=r["test"]))
        for f in FLAGS:
            ctx.count(f, int(r["flags"][f]))
        ctx.count("stop asked", int(any(r["stop"])))

    def refuse():
        for f in (0.5, 0.25, 0.0):
            TrainingLog(max_n_steps=3, early_stopping=True, train_smooth_factor=f, verbose=False)
        for f in (0.500001, 0.51, 0.75, 1.0, 2.0):
            require_raises((AssertionError, ValueError), lambda: TrainingLog(max_n_steps=3, early_stopping=True, train_smooth_factor=f, verbose=False),
                           "smoothing factor above 0.5 is refused", factor=f)

    ctx.case("smoothing factor", refuse)
    return ctx.finish(
        "model_checking",
        ["values are multiples of 257/1024, test values also of 257/4194304 and 257/2 (and minus infinity for test values); up to 45 values per history; exact 5% ties are not compared"],
        "distinct (settings, training history, test history) with answers computed by the specification",
    )
