"""C17: persistence against spec/Persist.tla."""
import enum
import os
import pathlib
import random
import shutil
import tempfile

import numpy as np
from harness.lib import require, require_raises


class Colour(enum.Enum):
    RED = "red"
    TWO = 2


class Num(enum.IntEnum):
    FOUR = 4


class Word(str, enum.Enum):
    BLUE = "blue"


TEXT = {"two lines": "first line\nsecond: line\n", "unicode": "zażółć – ∑ 漢字"}
NP = dict(npfloat64=np.float64, npfloat32=np.float32, npfloat16=np.float16, npint64=np.int64, npint32=np.int32, npuint8=np.uint8, npbool=np.bool_, npstr=np.str_)


def build(t):
    k, v = t
    if k == "none":
        return None
    if k == "float":
        return float(v)
    if k == "str":
        return TEXT.get(v, v)
    if k in ("int", "bool"):
        return v
    if k in NP:
        return NP[k](v)
    if k == "path":
        return pathlib.Path(v)
    if k == "pure":
        return pathlib.PosixPath(v)
    if k in ("enumstr", "enumint"):
        return Colour(v)
    if k == "intenum":
        return Num(v)
    if k == "strenum":
        return Word(v)
    if k in ("arr0", "arr1", "arr2"):
        return np.array(v)
    if k == "arrf":
        return np.array([float(a) for a in v])
    if k == "arrbool":
        return np.array(v)
    if k == "arrempty":
        return np.array([], dtype=int)
    if k == "list":
        return [build(a) for a in v]
    if k == "tuple":
        return tuple(build(a) for a in v)
    if k == "dict":
        return {f"k{i}": build(a) for i, a in enumerate(v)}
    if k == "intdict":
        return {i: build(a) for i, a in enumerate(v)}
    if k == "twice":
        o = build(v)
        return [o, o]
    raise KeyError(k)


def same(a, b):
    """Equality of plain values, types included (NaN equals NaN)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return list(map(str, sorted(a, key=str))) == list(map(str, sorted(b, key=str))) and all(k in b and same(a[k], b[k]) for k in a)
    return a == b


def frozen(o):
    """Structure of an object, to see whether it was changed."""
    if isinstance(o, dict):
        return ("d", tuple((repr(k), frozen(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(map(frozen, o)))
    if isinstance(o, np.ndarray):
        return ("a", o.dtype.str, o.shape, o.tobytes())
    return (type(o).__name__, repr(o))


def run(ctx):
    k = ctx.pick(1, 12)

    def tlc(mode, ops, dim, rows, num, s):
        return lambda: ctx.tlc("Persist", dict(Mode=mode, MaxOps=ops, MaxDim=dim, MaxRows=rows), invariants=["Laws", "Emit"], simulate=num * k, depth=3 * ops + 5,
                               seed=ctx.seed * 10 + s, label=f"{mode} {ops} operations").rows

    parts = ctx.parallel(tlc("csv", 5, 3, 4, 60, 1), tlc("csv", 9, 14, 3, 60, 2), tlc("csv", 6, 30, 40, 20, 3), tlc("csv", 8, 2, 40000, 8, 6), tlc("yaml", 4, 1, 1, 120, 4), tlc("yaml", 10, 1, 1, 120, 5))
    rows = [r for p in parts for r in p]
    import jax.numpy as jnp
    import yaml
    from bmi.benchmark.result import RunResult
    from bmi.benchmark.task import Task
    from bmi.benchmark.utils.dict_dumper import DictDumper
    from bmi.utils import read_sample, read_sample_dims, save_sample

    rng = random.Random(ctx.seed)
    nr = np.random.default_rng(ctx.seed)

    def data(cl, n, d):
        x = nr.normal(size=(n, d))
        if cl == "tiny":
            return x * 1e-300
        if cl == "huge":
            return x * 1e300
        if cl == "subnormal":
            return x * 1e-310
        if cl == "integers":
            return nr.integers(-1000, 1000, size=(n, d))
        if cl == "big integers":
            return nr.integers(-(2**62), 2**62, size=(n, d))
        if cl == "float32":
            return x.astype(np.float32)
        if cl == "nan and inf":
            return np.where(nr.random((n, d)) < 0.3, nr.choice([np.nan, np.inf, -np.inf], size=(n, d)), x)
        if cl == "jax":
            return jnp.asarray(x)
        if cl == "bool":
            return (x > 0).astype(int)
        if cl == "repeated":  # rows that occur more than once, also one after the other
            return nr.integers(0, 2, size=(n, d)) / 4
        if cl == "constant":
            return np.full((n, d), 0.1)
        if cl == "last row same" and n > 1:
            x[-1] = x[0]
        if cl == "decimal":
            return np.round(x, 2) * rng.choice([1, 10, 1e10])
        return x

    def csv(r):
        work = tempfile.mkdtemp(dir=ctx.scratch)
        os.makedirs(os.path.join(work, "sub dir"))
        saved = {}
        try:
            for e in r["log"]:
                p = os.path.join(work, e["file"])
                arg = rng.choice([str, pathlib.Path])(p)
                if e["op"] == "save":
                    cl = e["class"]
                    x, y = data(cl, e["n"], e["dx"]), data(cl if cl != "mixed" else "integers", e["n"], e["dy"])
                    keep = np.array(x), np.array(y)
                    ax, ay = (x, y) if cl != "list" or e["n"] == 0 else (x.tolist(), y.tolist())
                    save_sample(arg, ax, ay)
                    require(np.array_equal(np.array(ax).reshape(keep[0].shape), keep[0], equal_nan=True), "saving leaves the sample unchanged")
                    saved[e["id"]] = keep + (cl,)
                elif e["op"] == "bad":
                    x, y = np.ones((3, 2)), np.ones((3, 2))
                    x, y = {"short y": (x, y[:2]), "short x": (x[:1], y), "1-d x": (x[:, 0], y), "1-d y": (x, y[:, 0]), "3-d x": (x[None], y), "scalar": (1.0, y), "one y": (x, y[:1]), "one x": (x[:1], y), "no y": (x, y[:0]), "one of one": (x[:1], y[:, 0])}[e["kind"]]
                    before = open(p, "rb").read() if os.path.exists(p) else None
                    require_raises(Exception, lambda: save_sample(arg, x, y), "malformed samples are refused", kind=e["kind"])
                    require((open(p, "rb").read() if os.path.exists(p) else None) == before, "nothing is written for malformed samples", kind=e["kind"])
                elif e["id"] == 0:
                    f = read_sample if e["op"] == "read" else read_sample_dims
                    require_raises(Exception, lambda: f(arg), "reading a file that was never written")
                elif e["op"] == "dims":
                    require(tuple(read_sample_dims(arg)) == (e["dx"], e["dy"]), "dimensions from the header", got=read_sample_dims(arg), want=(e["dx"], e["dy"]))
                else:
                    x, y, cl = saved[e["id"]]
                    before = open(p, "rb").read()
                    gx, gy = read_sample(arg)
                    require(open(p, "rb").read() == before, "reading leaves the file unchanged")
                    for got, want, what in ((gx, x, "X"), (gy, y, "Y")):
                        require(isinstance(got, np.ndarray) and got.shape == want.shape, f"{what}: rows and dimensions", got=np.shape(got), want=want.shape)
                        if want.size == 0:
                            continue
                        # integers are written next to floats as floats
                        exact = np.array_equal(got, want, equal_nan=True) if cl not in ("big integers",) else [int(a) for a in got.ravel()] == [int(a) for a in want.ravel()]
                        if not exact:
                            g, w = got.astype(float), want.astype(float)
                            ok = np.array_equal(np.isnan(g), np.isnan(w)) and np.all((g == w) | np.isnan(w) | (np.abs(g - w) <= 1e-11 * np.abs(w) + 1e-320))
                            if want.dtype == np.float32:
                                ok = np.array_equal(g.astype(np.float32), want, equal_nan=True)
                            require(bool(ok) and cl != "big integers", f"{what}: every column in place and every value to float precision", cls=cl, got=got[:3], want=want[:3])
        finally:
            shutil.rmtree(work, ignore_errors=True)

    def yam(terms, plain):
        objs = [build(t) for t in terms]
        want = [build(t) for t in plain]
        content = {f"p{i}": o for i, o in enumerate(objs)}
        expect = {f"p{i}": o for i, o in enumerate(want)}
        before = frozen(content)
        path = os.path.join(ctx.scratch, "out.yaml")
        with open(path, "w") as f:
            f.write("old: content\n" * 200)
        text = yaml.dump(content, Dumper=DictDumper)
        require(same(yaml.safe_load(text), expect), "dictionary survives as plain Python content", text=text[:500], want=repr(expect)[:500])
        require(frozen(content) == before, "the object is unchanged")

        def check(save, expected, obj, clause):
            save(rng.choice([path, pathlib.Path(path)]))
            with open(path) as f:
                got = yaml.safe_load(f)
            require(same(got, expected), clause, got=repr(got)[:700], want=repr(expected)[:700])
            require(frozen(content) == before, "the object is unchanged")

        for est, ok in ((0.25, True), (float("nan"), False), (np.float64(1e-7), True), (float("inf"), True), (np.float32(0.5), True)):
            r = RunResult(mi_estimate=est, time_in_seconds=rng.choice([0.5, float("nan"), np.float64(2.0)]), success=ok, estimator_id="e", task_id="t-1", n_samples=rng.choice([7, np.int64(7)]),
                          seed=rng.choice([None, 3]), additional_information=content)
            t = float(r.time_in_seconds)
            check(r.dump, dict(mi_estimate=float(est), time_in_seconds=t, success=ok, estimator_id="e", task_id="t-1", n_samples=7, seed=r.seed, additional_information=expect),
                  r, "run result survives as plain Python content")

        class S:
            dim_x, dim_y, dim_total = 2, 3, 5

            def mutual_information(self):
                return rng.choice([0.5, np.float32(0.5), jnp.asarray(0.5)])

        task = Task(sampler=S(), task_id="id: 1", task_name="2", task_params=content)
        check(task.save_metadata, dict(task_id="id: 1", task_name="2", dim_x=2, dim_y=3, mi_true=0.5, task_params=expect), task, "task metadata survives as plain Python content")

    for r in rows:
        if "log" in r:
            ctx.case("csv " + str(r["log"])[:600], lambda: csv(r), sample=r["log"][:3])
            ctx.count("csv histories")
        elif r["terms"]:
            ctx.case("yaml " + str(r["terms"])[:600], lambda: yam(r["terms"], r["plain"]), sample=r["terms"][:3])
            ctx.count("yaml documents")
    return ctx.finish(
        "model_checking",
        ["up to 30 columns per variable with 40 rows, and 40000 rows with 2 columns per variable; value classes sampled inside each class", "YAML terms of the bound; dictionaries with string and integer keys"],
        "distinct file histories and YAML documents",
    )
