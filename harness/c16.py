"""C16: external estimators against spec/External.tla, with stand-ins for Rscript and julia on the PATH."""
import os
import random
import shutil
import tempfile
import threading
import time

import numpy as np
from harness.lib import REPO, require, require_close, require_raises

FAKE = """#!/bin/sh
n=$(ls "$FAKE_DIR" | grep -c '^argv')
a="$FAKE_DIR/argv$n"
printf '%s\\n' "$0" "$@" > "$a"
[ -f "$2" ] && cp "$2" "$FAKE_DIR/file$n"
. "$FAKE_DIR/behaviour"
"""

WAITING = """#!/bin/sh
n=$(cat "$FAKE_DIR/number")
: > "$FAKE_DIR/ready$n"
i=0
while [ ! -e "$FAKE_DIR/go$n" ] && [ $i -lt 6000 ]; do sleep 0.01; i=$((i+1)); done
tail -n 1 "$2" | sed 's/.*,//'
"""


def printed(b):
    """Shell text doing what the behaviour says, and what was printed."""
    v = b["num"] / 4
    k, s = b["kind"], b["style"]
    q = lambda t: "'" + t + "'"  # noqa: E731
    if k == "value":
        t = {"plain": f"{v}\\n", "spaces": f"   {v}  \\n", "exponent": f"{v * 100:.6f}e-2\\n", "newlines": f"\\n\\n{v}\\n\\n", "nonewline": f"{v}"}[s]
        return f"printf -- {q(t)}"
    if k == "text" and s in ("bytes after", "bytes before", "bytes only", "nul"):
        return "printf " + q({"bytes after": r"0.25\377\n", "bytes before": r"\351 0.25\n", "bytes only": r"\200\201", "nul": r"0.25\0001"}[s])
    if k == "text":
        return f"printf -- {q(s.replace('%', '%%'))}"
    if k == "stderr":
        return {"warning after": f"echo {v}; echo 'Warning: masked' >&2", "warning before": f"echo 'Loading package' >&2; echo {v}", "only stderr": "echo 'nothing to say' >&2"}[s]
    if k == "exit":
        return f"echo {v}; echo 'something failed 17' >&2; exit {s}"
    if k == "signal":
        return f"echo {v}; echo 'something failed 17' >&2; kill -{s} $$; sleep 5"
    return ""


def run(ctx):
    k = ctx.pick(1, 12)
    parts = ctx.parallel(*[
        (lambda s=s, c=c, d=d: ctx.tlc("External", dict(MaxCalls=c, MaxDim=d), invariants=["Laws", "Emit"], simulate=110 * k, depth=80,
                                       seed=ctx.seed * 10 + s, label=f"histories of {c} calls").rows)
        for s, c, d in ((1, 1, 3), (2, 3, 2), (3, 5, 12), (4, 2, 4))
    ], *[
        (lambda n=n, kinds=kinds: ctx.tlc("ExternalPar", dict(Calls=n, Kinds=kinds, Shapes={1, 2}), invariants=["Laws", "Emit"],
                                          label=f"interleavings of {n} estimates, exhaustive").rows)
        for n, kinds in ((2, {"one", "same class", "mixed"}), (3, {"one", "mixed"}))
    ])
    par = parts.pop() + parts.pop()
    rows = [r for p in parts for r in p]
    from bmi.estimators.external import external_estimator, julia_estimators, r_estimators
    import jax.numpy as jnp
    import pandas as pd
    from bmi.interface import EstimateResult

    classes = {e: getattr(r_estimators if e.startswith("R") else julia_estimators, e + "Estimator")
               for e in ("RKSG", "RLNN", "RBNSL", "JuliaKSG", "JuliaHistogram", "JuliaTransfer", "JuliaKernel")}
    rng = random.Random(ctx.seed)
    nr = np.random.default_rng(ctx.seed)
    root = ctx.scratch
    bindir, empty = os.path.join(root, "bin"), os.path.join(root, "empty")
    os.makedirs(bindir)
    os.makedirs(empty)
    for exe in ("Rscript", "julia"):
        p = os.path.join(bindir, exe)
        with open(p, "w") as f:
            f.write(FAKE)
        os.chmod(p, 0o755)
    path0, cwd0 = os.environ["PATH"], os.getcwd()
    seen = set()

    def number(s):
        return float(s) if "." in s else int(s)

    for r in rows:
        key = str((r["est"], r["names"], r["log"]))[:700]
        if key in seen:
            continue
        seen.add(key)

        def go(r=r):
            cls = classes[r["est"]]
            kw = {n: number(v) for n, v, _ in r["names"] if v != ""}
            if not r["valid"]:
                require_raises(ValueError, lambda: cls(**kw), "hyperparameters outside the documented range are refused at construction", kwargs=kw)
                return
            est = cls(**kw)
            work = tempfile.mkdtemp(dir=root)
            tmp = os.path.join(work, "tmp")
            os.makedirs(tmp)
            old = tempfile.tempdir
            try:
                tempfile.tempdir = tmp
                os.environ["TMPDIR"] = tmp
                os.chdir(work)
                for i, e in enumerate(r["log"]):
                    p = est.parameters()
                    for n, _, v in r["names"]:
                        require(getattr(p, n) == number(v), "parameters are the ones given", name=n, got=getattr(p, n), want=v)
                    one(est, e, work, tmp, i)
            finally:
                tempfile.tempdir = old
                os.environ.pop("TMPDIR", None)
                os.environ["PATH"] = path0
                os.chdir(cwd0)
                shutil.rmtree(work, ignore_errors=True)

        def one(est, e, work, tmp, i):
            c, o = e["call"], e["outcome"]
            d = os.path.join(work, f"fake{i}")
            os.makedirs(d)
            b = c["b"] or None
            os.environ["FAKE_DIR"] = d
            with open(os.path.join(d, "behaviour"), "w") as f:
                f.write((printed(b) if b else "echo 0.75") + "\n")
            os.environ["PATH"] = empty if b and b["kind"] == "missing" else bindir + os.pathsep + path0
            n = rng.choice([1, 2, 5])
            x, y = nr.normal(size=(n, c["dx"])), nr.normal(size=(n, c["dy"])) * rng.choice([1, 1e-12, 1e12])
            kind = rng.choice(["float", "int", "list", "jax", "float32", "mixed"])
            if kind == "int":
                x, y = nr.integers(-9, 10, size=x.shape), nr.integers(-9, 10, size=y.shape)
            elif kind == "jax":
                x, y = jnp.asarray(x), jnp.asarray(y)
            elif kind == "float32":
                x, y = x.astype(np.float32), y.astype(np.float32)
            elif kind == "mixed":
                x = nr.integers(-9, 10, size=x.shape)
            wx, wy = np.array(x), np.array(y)
            if kind == "list":
                x, y = x.tolist(), y.tolist()
            mode = c["mode"]
            given = None
            if mode == "arrays":
                f = lambda: est.estimate(x, y)  # noqa: E731
            elif mode == "info":
                f = lambda: est.estimate_with_info(x, y)  # noqa: E731
            elif mode == "mismatch":
                f = lambda: est.estimate(np.concatenate([wx, wx]), wy)  # noqa: E731
            elif mode == "onedim":
                f = lambda: est.estimate(wx[:, 0], wy)  # noqa: E731
            else:
                given = os.path.join(work, rng.choice([f"sample{i}.csv", f"some dir {i}", f"X{i}"]))
                cols = [f"X{j}" for j in range(c["dx"])] + [f"Y{j}" for j in range(c["dy"])]
                pd.DataFrame(np.hstack([wx, wy]), columns=cols).to_csv(given, index=False)
                arg = os.path.relpath(given, work) if mode == "relative" else given
                if rng.random() < 0.5:
                    import pathlib

                    arg = pathlib.Path(arg)
                before = open(given, "rb").read()
                f = lambda: est.estimate_with_info_from_path(arg)  # noqa: E731
            err = res = None
            try:
                res = f()
            except Exception as ex:
                err = ex
            # what was started
            started = sorted(v for v in os.listdir(d) if v.startswith("argv"))
            require(len(started) == (1 if e["started"] else 0), "exactly one process per estimate (none for malformed samples)", got=len(started), call=c)
            if e["started"]:
                argv = open(os.path.join(d, started[0])).read().split("\n")[:-1]
                a = e["argv"]
                require(os.path.basename(argv[0]) == a["exe"], "program that is run", argv=argv)
                require(os.path.realpath(argv[1]) == os.path.realpath(os.path.join(REPO, "external", a["script"])) and os.path.isabs(argv[1]),
                        "script that is run, by absolute path", argv=argv)
                require(os.path.isabs(argv[2]), "absolute path of the sample", argv=argv)
                require(argv[3:5] == [str(v) for v in a["dims"]], "dimensions of X and Y, in this order", argv=argv, want=a["dims"])
                rest = []
                for t in argv[5:]:
                    rest += t.split("=", 1) if t.startswith("--") and "=" in t else [t]
                got = sorted((rest[j].lstrip("-"), rest[j + 1]) if j + 1 < len(rest) else (rest[j],) for j in range(0, len(rest), 2))

                def val(t):
                    try:
                        return float(t)
                    except ValueError:
                        return t

                require([(g[0], *map(val, g[1:])) for g in got] == sorted((f_, val(v)) for f_, v in a["options"]) and all(t.startswith("--") for t in rest[::2]),
                        "method and hyperparameter options of the script", argv=argv, want=a["options"])
                fcopy = os.path.join(d, "file0")
                require(os.path.exists(fcopy), "the sample file exists while the process runs", argv=argv)
                df = pd.read_csv(fcopy, float_precision="round_trip")
                require(list(df.columns) == [f"X{j}" for j in range(c["dx"])] + [f"Y{j}" for j in range(c["dy"])], "columns of the file", got=list(df.columns)[:30])
                data = df.to_numpy()
                want = np.hstack([wx, wy])
                require(data.shape == want.shape and np.array_equal(data.astype(want.dtype), want), "the file holds exactly the given sample", got=data[:3], want=want[:3])
                if given is None:
                    require(not os.path.exists(argv[2]), "the temporary file is gone afterwards", path=argv[2])
                else:
                    require(os.path.realpath(argv[2]) == os.path.realpath(given), "the given file is used", argv=argv)
            if given is not None:
                require(open(given, "rb").read() == before, "the given file is left as it was")
            require(os.listdir(tmp) == [], "nothing is left in the temporary directory", got=os.listdir(tmp))
            # what came back
            if o["ok"]:
                require(err is None, "a printed number is the estimate", error=repr(err)[:300], behaviour=b)
                got = res
                if mode != "arrays":
                    require(isinstance(res, EstimateResult), "result record", got=repr(res)[:200])
                    got = res.mi_estimate
                require(isinstance(got, float), "estimate is a float", got=repr(got))
                require_close(got, o["num"] / 4, "the estimate is the number printed", 1e-12, 1e-12, behaviour=b)
            else:
                require(err is not None, "malformed samples, noise, non-zero exit and missing programs are errors, never an estimate", result=repr(res)[:200], behaviour=b, mode=mode)
                if o["output"]:
                    out = getattr(err, "output", None)
                    out = out.decode() if isinstance(out, bytes) else out
                    require(isinstance(out, str) and "something failed 17" in out and str(b["num"] / 4) in out, "output of the failing process is available on the error",
                            error=repr(err)[:200], output=repr(out)[:200])

        ctx.case(key, go, sample=dict(est=r["est"], names=r["names"]))
        ctx.count(r["est"])
        ctx.count("calls", len(r["log"]))

    def parallel(r, number):
        """Overlapping estimates from threads; every process waits until it is released and then answers from its file."""
        work = tempfile.mkdtemp(dir=root)
        d, tmp = os.path.join(work, "fake"), os.path.join(work, "tmp")
        os.makedirs(d)
        os.makedirs(tmp)
        N = len(r["shape"])
        with open(os.path.join(d, "behaviour"), "w") as f:
            f.write("")
        old = tempfile.tempdir
        os.environ.update(FAKE_DIR=d, TMPDIR=tmp, PATH=bindir + os.pathsep + path0)
        tempfile.tempdir = tmp
        mk = {"one": lambda c: shared, "same class": lambda c: classes["JuliaKSG"](), "mixed": lambda c: [classes["RKSG"], classes["JuliaHistogram"], classes["JuliaKSG"]][c - 1]()}[r["kind"]]
        shared = classes[["RLNN", "JuliaKernel"][number % 2]]()
        answers, errors, threads = {}, {}, {}
        try:
            for op, c in r["hist"]:
                ready = os.path.join(d, f"ready{c}")
                if op == "begin":
                    with open(os.path.join(d, "number"), "w") as f:
                        f.write(str(c))
                    est = mk(c)
                    s = r["shape"][c - 1]
                    x, y = np.full((2 * s, s), float(c)), np.full((2 * s, 1), c / 8)

                    def call(est=est, x=x, y=y, c=c):
                        try:
                            answers[c] = est.estimate(x, y)
                        except Exception as e:
                            errors[c] = repr(e)[:300]

                    threads[c] = threading.Thread(target=call, daemon=True)
                    threads[c].start()
                    for wait in (10, 60):
                        until = time.time() + wait
                        while not os.path.exists(ready) and c not in errors and time.time() < until:
                            time.sleep(0.002)
                        if os.path.exists(ready) or c in errors:
                            break
                        for b in threads:  # nothing says that estimates may not wait for one another
                            if b != c:
                                open(os.path.join(d, f"go{b}"), "w").close()
                    require(os.path.exists(ready), "every estimate starts a process", error=errors.get(c), history=r["hist"], call=c)
                else:
                    open(os.path.join(d, f"go{c}"), "w").close()
                    threads[c].join(60)
                    require(not threads[c].is_alive(), "an estimate returns when its process has ended", history=r["hist"], call=c)
                    require(c not in errors, "a printed number is the estimate", error=errors.get(c), history=r["hist"], call=c)
                    require(answers[c] == r["result"][c - 1] / 8, "overlapping estimates: each process finds the sample of its own call", got=answers[c] * 8, want=r["result"][c - 1], history=r["hist"])
            require(os.listdir(tmp) == [], "nothing is left in the temporary directory", got=os.listdir(tmp))
        finally:
            for c in threads:
                open(os.path.join(d, f"go{c}"), "w").close()
            for t in threads.values():
                t.join(10)
            tempfile.tempdir = old
            os.environ.pop("TMPDIR", None)
            os.environ["PATH"] = path0
            shutil.rmtree(work, ignore_errors=True)

    for exe in ("Rscript", "julia"):
        with open(os.path.join(bindir, exe), "w") as f:
            f.write(WAITING)
    rng.shuffle(par)
    for number, r in enumerate(par[: ctx.pick(60, 400)]):
        ctx.case(f"overlapping {r['kind']} {r['shape']} {r['hist']}", lambda: parallel(r, number), timeout=200, sample=r)
        ctx.count("overlapping estimates")
    return ctx.finish(
        "model_checking",
        ["R and Julia are not installed: stand-ins on the PATH record arguments and files and behave as the specification says; the scripts themselves are not run",
         "options compared with what the scripts document"],
        "distinct (estimator, hyperparameters, call history with process behaviours)",
    )
