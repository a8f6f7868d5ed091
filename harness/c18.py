"""C18: benchmark tasks against spec/Tasks.tla."""
import inspect
import math
import os
import random
import sys

import numpy as np
from harness import compose
from harness.c02 import correction
from harness.lib import require, require_close, require_raises

INV = ["KeepsMI", "KeepsParams", "UniqueParams", "ClosedForms", "Emit"]
ONE = ["additive", "normal", "bimodal", "X", "AI"]
MIXK = ["galaxy", "waves", "concentric"]
GAUSS = ["dense", "sparse", "2pair"]
STUD = ["st-identity", "st-dense", "st-sparse", "st-2pair"]
ALL = ONE + MIXK + GAUSS + ["lvm"] + STUD + ["inliers"]


def fl(q):
    return q[0] / q[1]


def num(s):
    return float(s) if "." in s else int(s)


def exact_mi(t):
    return compose.mi_value(t["mi"]) + sum(correction(c) for c in t["st"])


def components(law):
    """(weight, mean, covariance) of the law's Gaussian components."""
    if law["fam"] == "mixture":
        for c in law["comps"]:
            cov = np.array([[fl(e["v"]) * math.sqrt(fl(e["r"])) for e in row] for row in c["cov"]])
            yield fl(c["w"]), np.array([fl(v) for v in c["mean"]]), cov
    else:
        cov = np.array([[fl(e) for e in row] for row in law["cov"]])
        if law["fam"] == "lvm":  # unit variances
            sd = np.sqrt(np.diag(cov))
            cov = cov / sd[:, None] / sd[None, :]
        yield 1.0, np.zeros(len(cov)), cov


ARGN = {
    "additive": ["epsilon"], "normal": ["gaussian_correlation"], "bimodal": ["gaussian_correlation"], "X": ["gaussian_correlation"], "AI": [],
    "galaxy": ["speed", "distance"], "waves": ["n_components", "wave_amplitude", "wave_frequency"], "concentric": ["dim_x", "n_components"],
    "dense": ["dim_x", "dim_y", "off_diag"], "sparse": ["dim_x", "dim_y", "n_interacting", "strength"], "2pair": ["dim_x", "dim_y", "strength"],
    "lvm": ["dim_x", "dim_y", "n_interacting", "alpha", "lambd", "beta", "eta"],
    "st-identity": ["dim_x", "dim_y", "df"], "st-dense": ["dim_x", "dim_y", "df", "off_diag"],
    "st-sparse": ["dim_x", "dim_y", "df", "n_interacting", "strength"], "st-2pair": ["dim_x", "dim_y", "df", "strength"],
    "inliers": ["dim_x", "dim_y", "n_interacting", "strength", "inlier_fraction"],
}
DEFAULT = {  # documented defaults
    "normal": {"gaussian_correlation": "0.75"}, "bimodal": {"gaussian_correlation": "0.75"}, "X": {"gaussian_correlation": "0.9"},
    "galaxy": {"speed": "0.5", "distance": "3.0"}, "waves": {"n_components": "12", "wave_amplitude": "5.0", "wave_frequency": "3.0"},
    "concentric": {"n_components": "3"}, "dense": {"off_diag": "0.5"}, "sparse": {"n_interacting": "2", "strength": "2.0"}, "2pair": {"strength": "2.0"},
    "lvm": {"beta": "0.0"}, "st-dense": {"off_diag": "0.5"}, "st-sparse": {"n_interacting": "2", "strength": "2.0"}, "st-2pair": {"strength": "2.0"},
    "inliers": {"n_interacting": "2", "strength": "2.0", "inlier_fraction": "0.2"},
}


def constructors():
    import bmi.benchmark.tasks as T
    from bmi.benchmark.tasks import student

    return {
        "additive": T.task_additive_noise, "normal": T.task_bivariate_normal, "bimodal": T.task_bimodal_gaussians, "X": T.task_x, "AI": T.task_ai,
        "galaxy": T.task_galaxy, "waves": T.task_waves, "concentric": T.task_concentric_multinormal, "dense": T.task_multinormal_dense,
        "sparse": T.task_multinormal_sparse, "2pair": T.task_multinormal_2pair, "lvm": T.task_multinormal_lvm, "st-identity": student.task_student_identity,
        "st-dense": T.task_student_dense, "st-sparse": T.task_student_sparse, "st-2pair": T.task_student_2pair, "inliers": T.task_multinormal_sparse_w_inliers,
    }


def transforms():
    import bmi.benchmark.tasks as T
    from bmi.benchmark.tasks.asinh import transform_asinh_task
    from bmi.benchmark.tasks.power import transform_power_task

    return {
        "normal_cdf": T.transform_normal_cdf_task, "half_cube": T.transform_half_cube_task, "asinh": transform_asinh_task, "wiggly": T.transform_wiggly_task,
        "swissroll": T.transform_swissroll_task, "spiral": T.transform_spiral_task, "rotate": T.transform_rotate_task, "power": transform_power_task,
        "rescale": T.transform_rescale, "uniformise": T.transform_uniformise, "gaussianise": T.transform_gaussianise,
    }


def make(kind, args, rng, mi_sample=4000):
    kw = {}
    names = ARGN[kind]
    vals = dict(zip(names, args))
    for k, v in vals.items():
        if DEFAULT.get(kind, {}).get(k) == v and rng.random() < 0.4:
            continue
        if kind == "lvm" and k == "eta" and v == vals["lambd"] and rng.random() < 0.6:
            if rng.random() < 0.5:
                kw["eta"] = None
            continue
        kw[k] = num(v)
    if kind in MIXK + ["X", "AI", "inliers"]:
        kw["mi_estimate_sample"] = mi_sample
    given = None
    if kind in GAUSS + ["lvm"] + STUD and rng.random() < 0.2:
        given = kw["task_name"] = "Chosen name"
    lead = [n for n in names if n in ("dim_x", "dim_y", "df")]
    pos = []
    if rng.random() < 0.3:  # leading arguments by position
        for n in lead:
            pos.append(kw.pop(n))
    return constructors()[kind](*pos, **kw), given


def text(v):
    return str(v)


def check_task(t, want, given=None):
    """One task object against the specified task."""
    name = given or want["name"].replace("><", "×")
    m = t.metadata
    require(t.id == want["id"], "id", got=t.id, want=want["id"])
    require(t.name == name, "name", got=t.name, want=name)
    require((t.dim_x, t.dim_y) == (want["dx"], want["dy"]), "dimensions", got=(t.dim_x, t.dim_y), want=(want["dx"], want["dy"]))
    wp = {k: v for k, v in want["params"]}
    require(set(t.params) == set(wp), "parameter names", got=sorted(t.params), want=sorted(wp))
    for k, v in t.params.items():
        if wp[k] == "matrix":
            cov = [c for _, _, c in components(want["law"])][0]
            require(np.shape(v) == cov.shape and np.allclose(v, cov, rtol=1e-12, atol=1e-12), f"parameter {k} is the matrix", got=v)
        else:
            require(text(v) == wp[k] or (not isinstance(v, (bool, str)) and wp[k] not in ("True", "False") and float(v) == float(wp[k])),
                    f"parameter {k}", got=v, want=wp[k])
    require(m.task_id == t.id and m.task_name == t.name and (m.dim_x, m.dim_y) == (t.dim_x, t.dim_y), "metadata mirrors id, name and dimensions", got=str(m)[:300])
    require(m.task_params == t.params, "metadata mirrors the parameters")
    require(m.mi_true == t.mutual_information and m.mi_true >= 0, "metadata mirrors the mutual information, non-negative", got=m.mi_true)
    require(t.sampler.dim_x == t.dim_x and t.sampler.dim_y == t.dim_y, "sampler dimensions")


_mc = {}


def mc_mi(law, dx):
    """Mutual information of a Gaussian mixture and the variance of the pointwise mutual information."""
    key = repr((law, dx))
    if key in _mc:
        return _mc[key]
    from scipy.stats import multivariate_normal as mvn

    g = np.random.default_rng(7)
    comps = list(components(law))
    n = 60_000
    ks = g.choice(len(comps), size=n, p=np.array([w for w, _, _ in comps]))
    z = np.empty((n, len(comps[0][1])))
    for i, (_, m, c) in enumerate(comps):
        z[ks == i] = g.multivariate_normal(m, c, size=int((ks == i).sum()), method="cholesky")

    def lp(sel):
        parts = [math.log(w) + mvn(m[sel], c[np.ix_(sel, sel)]).logpdf(z[:, sel]) for w, m, c in comps if w > 0]
        return np.logaddexp.reduce(np.array(parts).reshape(-1, n), axis=0)

    d = z.shape[1]
    pmi = lp(list(range(d))) - lp(list(range(dx))) - lp(list(range(dx, d)))
    _mc[key] = (float(pmi.mean()), float(pmi.var()), n)
    return _mc[key]


def check_mi(t, want, base_law, base_dx, mi_sample):
    if base_law["fam"] == "mixture":
        m, v, n = mc_mi(base_law, base_dx)
        tol = 6 * math.sqrt(v / n + v / mi_sample) + 2e-3
        require(abs(t.mutual_information - m) <= tol, "mutual information of the mixture", got=t.mutual_information, want=m, tol=tol)
    else:
        require_close(t.mutual_information, exact_mi(want), "exact mutual information", 1e-6, 1e-9)


def base_coordinates(kind, args, x, y):
    """Undoes the known maps of the base constructor: the pair must then follow the specified law."""
    from scipy.stats import norm

    if kind == "bimodal":
        u = 0.3 * norm.cdf(x) + 0.7 * norm.cdf(x - 5)
        v = 0.5 * norm.cdf(y + 1) + 0.5 * norm.cdf(y - 3)
        return norm.ppf(np.clip(u, 1e-12, 1 - 1e-12)), norm.ppf(np.clip(v, 1e-12, 1 - 1e-12))
    if kind == "galaxy":
        a = -float(args[0]) * (x**2).sum(1)
        c, s = np.cos(a), np.sin(a)
        return np.stack([c * x[:, 0] - s * x[:, 1], s * x[:, 0] + c * x[:, 1]], 1), y
    if kind == "waves":
        x1 = x[:, 1] / 0.5
        return np.stack([(x[:, 0] + 0.8) / 0.1 - float(args[1]) * np.sin(float(args[2]) * x1), x1], 1), y
    return x, y


def check_law(kind, args, law, x, y, seed, shift=0.0):
    """Random half-spaces of (x, y) have the specified probability."""
    from scipy.stats import norm, t as tdist

    n = len(x)
    if law["fam"] == "additive":
        e = fl(law["q"])
        d = (y - x)[:, 0]
        require(((x >= 0) & (x <= 1)).all() and (np.abs(d) <= e * (1 + 1e-6) + 1e-6).all(), "support of the additive-noise task")
        for a in (0.2, 0.5, 0.9):
            for b in (-0.5, 0.0, 0.7):
                p = a * (b + 1) / 2
                got = np.mean((x[:, 0] <= a) & (d <= b * e))
                require(abs(got - p) <= 5.5 * math.sqrt(p * (1 - p) / n) + 1e-9, "law of the additive-noise task", a=a, b=b, got=got, want=p)
        return
    x, y = base_coordinates(kind, args, x, y)
    z = np.hstack([x, y])
    comps = list(components(law))
    g = np.random.default_rng(seed)
    d = z.shape[1]
    dirs = [np.eye(d)[i] for i in range(d)]
    dirs += [np.eye(d)[i] + s * np.eye(d)[j] for i in range(d) for j in range(i) for s in (1, -1)]
    g.shuffle(dirs)
    dirs = dirs[:24] + list(g.normal(size=(8, d)))
    for w in dirs:
        pr = z @ w
        spread = math.sqrt(max(float(w @ c @ w) for _, _, c in comps))
        for t in ([float(w @ m) for _, m, _ in comps][:4] + [-0.7 * spread, 0.7 * spread, 1.5 * spread, 0.0])[:6]:
            if law["fam"] == "student":
                sd = math.sqrt(float(w @ comps[0][2] @ w))
                if sd < 1e-9:
                    continue
                p = float(tdist.cdf(t / sd, float(law["df"])))
            else:
                p = 0.0
                for wt, m, c in comps:
                    sd = math.sqrt(max(float(w @ c @ w), 0.0))
                    p += wt * (float(norm.cdf((t - float(w @ m)) / sd)) if sd > 1e-9 else float(t >= float(w @ m)))
            if any(math.sqrt(max(float(w @ c @ w), 0)) < 1e-3 for _, _, c in comps):
                continue
            got = float(np.mean(pr <= t))
            require(abs(got - p) <= 5.5 * math.sqrt(max(p * (1 - p), 1e-4) / n) + 2e-4, "law of the sampled pairs", direction=w, threshold=t, got=got, want=p, n=n)


def wig_x(v):
    return v + 0.4 * np.sin(v) + 0.2 * np.sin(1.7 * v + 1) + 0.03 * np.sin(3.3 * v - 2.5)


def wig_y(v):
    return v - 0.4 * np.sin(0.4 * v) + 0.17 * np.sin(1.3 * v + 3.5) + 0.02 * np.sin(4.3 * v - 2.5)


def generator(gen, d):
    a = np.zeros((d, d))
    for c, i, j in gen:
        b = np.zeros((d, d))
        b[i, j], b[j, i] = -1, 1
        a += c * b
    return a


def quantile(v, nq, dist):
    from scipy.stats import norm

    n = len(v)
    q = min(nq, n)
    grid = np.linspace(0, 1, q)
    out = np.empty_like(v)
    for k in range(v.shape[1]):
        c = v[:, k]
        ref = np.quantile(c, grid)
        ref = np.maximum.accumulate(ref)
        u = 0.5 * (np.interp(c, ref, grid) - np.interp(-c, -ref[::-1], -grid[::-1]))
        u[c == ref[0]], u[c == ref[-1]] = 0.0, 1.0
        if dist == "normal":
            lo = norm.ppf(1e-7 - np.spacing(1))
            u = np.clip(norm.ppf(u), lo, norm.ppf(1 - (1e-7 - np.spacing(1))))
        out[:, k] = u
    return out


def apply(m, x, y):
    """The specified map of one transform, in numpy."""
    from scipy.linalg import expm
    from scipy.stats import norm

    t = m["t"]
    both = lambda f: (f(x), f(y))  # noqa: E731
    if t == "normal_cdf":
        return both(norm.cdf)
    if t == "half_cube":
        return both(lambda v: np.sign(v) * np.abs(v) ** 1.5)
    if t == "asinh":
        return both(np.arcsinh)
    if t == "wiggly":
        return wig_x(x), wig_y(y)
    if t == "swissroll":
        a = 1.5 * np.pi * (1 + 2 * x)
        return np.hstack([a * np.cos(a), a * np.sin(a)]) / 21, y
    if t == "power":
        e = fl(m["arg"]["q"])
        return both(lambda v: np.sign(v) * np.abs(v) ** e)
    if t == "rescale":
        return both(lambda v: (v - v.mean(0)) / np.where(v.std(0) > 0, v.std(0), 1.0))
    if t in ("uniformise", "gaussianise"):
        return both(lambda v: quantile(v, int(m["arg"]["s"]), "normal" if t == "gaussianise" else "uniform"))
    if t in ("spiral", "rotate"):
        gx, gy = generator(m["genx"], x.shape[1]), generator(m["geny"], y.shape[1])
        if t == "rotate":
            return x @ expm(gx), y @ expm(gy)

        def sp(v, a, s):
            return np.stack([expm(float(r @ r) * s * a) @ r for r in v])

        return sp(x, gx, fl(m["speedx"])), sp(y, gy, fl(m["speedy"]))
    raise ValueError(t)


def state(t):
    return (t.id, t.name, repr(t.params), t.dim_x, t.dim_y, t.mutual_information)


def run_chain(ctx, r, rng, seen_law):
    kind, args, chain = r["kind"], r["args"], r["chain"]
    base_want = chain[0]["task"]
    law = base_want["law"]
    t, given = make(kind, args, rng)
    check_task(t, base_want, given)
    check_mi(t, base_want, law, base_want["dx"], 4000)
    key = repr((kind, args))
    if key not in seen_law and rng.random() < 0.7:
        seen_law.add(key)
        seed = rng.randrange(1000)
        n = 4000
        x, y = (np.asarray(v, dtype=float) for v in t.sample(n, seed))
        require(x.shape == (n, base_want["dx"]) and y.shape == (n, base_want["dy"]), "sample widths are the dimensions", got=(x.shape, y.shape))
        check_law(kind, args, law, x, y, seed)
        ctx.count("laws")
    prev_given = given
    for link in chain[1:]:
        want, m, call = link["task"], link["tr"][0], link["call"][0]
        before = state(t)
        n, seed = rng.choice([2, 7, 40, 101]), rng.randrange(5000)
        bx, by = (np.array(v, dtype=float) for v in t.sample(n, seed))
        kw = {}
        if call["name"]:
            kw["task_name"] = call["name"]
        if call["id"]:
            kw["task_id"] = call["id"]
        if call["t"] == "spiral":
            if call["a"] != "1.0" or rng.random() < 0.5:
                kw["speed"] = num(call["a"])
            if not call["flag"] or rng.random() < 0.3:
                kw["normalize_speed"] = call["flag"]
        elif call["t"] == "power":
            kw["alpha"] = num(call["a"])
        elif call["t"] in ("uniformise", "gaussianise") and (call["a"] != "100" or rng.random() < 0.5):
            kw["n_quantiles"] = num(call["a"])
        f = transforms()[call["t"]]
        u = f(base_task=t, **kw) if rng.random() < 0.5 else f(t, **kw)
        w = dict(want)
        if prev_given and not call["name"]:  # the base was given a name: a derived name contains it
            w["name"] = want["name"].replace(base_want["name"], prev_given)
        else:
            prev_given = None
        check_task(u, w)
        require_close(u.mutual_information, t.mutual_information, "a transform keeps the mutual information", 1e-12, 1e-12)
        require(state(t) == before, "the base task is unchanged", before=before, after=state(t))
        ux, uy = (np.asarray(v, dtype=float) for v in u.sample(n, seed))
        require(ux.shape == (n, want["dx"]) and uy.shape == (n, want["dy"]), "sample widths are the dimensions", got=(ux.shape, uy.shape))
        with np.errstate(all="ignore"):
            wx, wy = apply(m, bx, by)
        mag = 1.0 + max(np.abs(bx).max(), np.abs(by).max())
        for got, exp, src, axis in ((ux, wx, bx, "x"), (uy, wy, by, "y")):
            if call["t"] == "spiral":  # the angle inherits the relative error of the squared norm
                ang = (src**2).sum(1, keepdims=True) * abs(fl(m["speed" + axis]))
                tol = 3e-3 * (1 + np.abs(src).max(1, keepdims=True)) * (1 + ang / 6)
                ok = ang[:, 0] < 60
                good = (np.abs(got - exp) <= tol)[ok].all()
            elif call["t"] == "rescale":
                # degenerate columns are judged only by being finite
                sd = src.std(0)
                ok = sd > 1e-5 * (1 + np.abs(src).max(0))
                good = np.allclose(got[:, ok], exp[:, ok], rtol=1e-3, atol=1e-3)
            elif call["t"] in ("uniformise", "gaussianise"):
                good = np.allclose(got, exp, rtol=1e-3, atol=1e-4) if call["t"] == "uniformise" else np.allclose(
                    np.clip(got, -4.5, 4.5), np.clip(exp, -4.5, 4.5), rtol=1e-3, atol=2e-2)
            elif call["t"] == "power":
                good = np.allclose(got, exp, rtol=5e-5, atol=1e-5)
            else:
                good = np.allclose(got, exp, rtol=2e-5, atol=2e-5 * (mag if call["t"] in ("rotate", "wiggly", "swissroll") else 1))
            if not np.isfinite(exp).all():
                continue
            require(good, f"{call['t']} maps {axis} of the base sample", src=src[:3], got=got[:3], want=exp[:3])
        ax, ay = (np.array(v, dtype=float) for v in t.sample(n, seed))
        require(np.array_equal(ax, bx) and np.array_equal(ay, by), "the base task's sample is unchanged")
        ctx.count("transforms")
        t = u
    # metadata round trip
    if rng.random() < 0.1:
        import tempfile

        import yaml

        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "m.yaml")
            t.save_metadata(p)
            with open(p) as fh:
                back = yaml.safe_load(fh)
            require(back["task_id"] == t.id and back["task_name"] == t.name and (back["dim_x"], back["dim_y"]) == (t.dim_x, t.dim_y)
                    and back["mi_true"] == t.mutual_information and set(back["task_params"]) == set(t.params), "saved metadata mirrors the task", got=back)


# ------------------------------------------------------------------ registry
def described(t):
    """(kind, args, transforms) of a shipped task, read from its id."""
    import re

    s, tr = t.id, []
    while True:
        m = re.match(r"(normal_cdf|half_cube|asinh|wiggly|swissroll_x|spiral|rotate|rescale|uniformise|gaussianise)-(.*)$", s)
        if not m:
            break
        tr.append(m[1])
        s = m[2]
    n = r"(-?[\d.]+)"
    for kind, rx in (
        ("additive", f"1v1-additive-{n}"), ("normal", f"1v1-normal-{n}"), ("bimodal", f"1v1-bimodal-{n}"), ("X", f"1v1-X-{n}"), ("AI", "1v1-AI"),
        ("galaxy", f"2v1-galaxy-{n}-{n}"), ("waves", f"2v1-waves-{n}-{n}-{n}"), ("concentric", f"{n}v1-concentric_gaussians-{n}"),
        ("dense", rf"multinormal-dense-{n}-{n}-{n}"), ("sparse", rf"multinormal-sparse-{n}-{n}-{n}-{n}"), ("st-identity", rf"student-identity-{n}-{n}-{n}"),
        ("st-dense", rf"student-dense-{n}-{n}-{n}-{n}"), ("inliers", rf"mult-sparse-w-inliers-{n}-{n}-{n}-{n}-{n}"),
    ):
        m = re.fullmatch(rx, s)
        if m:
            return kind, list(m.groups()), tr[::-1]
    return None


def tla_num(s):
    from fractions import Fraction

    f = Fraction(s)
    return f'[s |-> "{s}", q |-> <<{f.numerator}, {f.denominator}>>]'


def load_config(path):
    import importlib.util

    spec = importlib.util.spec_from_file_location("cfg_" + os.path.basename(os.path.dirname(path)), path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def registry(ctx, which):
    """Every shipped task: unique ids, and the task under an id is the one the id describes."""
    repo = os.environ.get("VERIF_REPO", "/repo")
    if which == "package":
        from bmi.benchmark.task_list import BENCHMARK_TASKS_LIST

        tasks, unscaled = list(BENCHMARK_TASKS_LIST), None
    else:
        cfg = load_config(f"{repo}/workflows/benchmark/{which}/config.py")
        unscaled, tasks = list(cfg.UNSCALED_TASKS), list(cfg.TASKS)

    def ids():
        got = [t.id for t in tasks]
        require(len(got) > 0 and len(set(got)) == len(got), "ids are unique in the list", repeated=[i for i in got if got.count(i) > 1][:3])
        if unscaled is not None:
            require(got == [t.id for t in unscaled], "one rescaled task per task, in order and with its id")

    ctx.case(f"{which} list: ids", ids)
    known = []
    for t in unscaled or tasks:
        d = described(t)
        if d is None:
            ctx.report(f"{which} list: {t.id}", "the id is one the specification can derive")
        else:
            known.append((t, d))
    return tasks, unscaled, known


def literal_rows(ctx, known, label):
    """Specification tasks for concrete arguments and transform chains."""
    from fractions import Fraction  # noqa: F401

    progs = []
    for _, (kind, args, tr) in known:
        a = "<<" + ", ".join(tla_num(s) for s in args) + ">>"
        t = "<<" + ", ".join(f'"{"swissroll" if x == "swissroll_x" else x}"' for x in tr) + ">>"
        progs.append(f'[k |-> "{kind}", a |-> {a}, t |-> {t}]')
    return ctx.tlc("Tasks", dict(MaxChain=4, MaxDim=2, Kinds="=={}", Programs="==<<" + ", ".join(progs) + ">>"), init="InitFixed", next_="NextFixed",
                   invariants=["KeepsMI", "KeepsParams", "UniqueParams", "Emit"], label=label).rows


def run_registry(ctx, which):
    tasks, unscaled, known = registry(ctx, which)
    rows = {(r["kind"], tuple(r["args"]), tuple(x["call"][0]["t"] for x in r["chain"][1:])): r for r in literal_rows(ctx, known, f"{which} list")}
    rng = random.Random(ctx.seed + len(which))
    by_id = {t.id: t for t in tasks}
    for t, (kind, args, tr) in known:
        r = rows[(kind, tuple(args), tuple("swissroll" if x == "swissroll_x" else x for x in tr))]
        want = dict(r["chain"][-1]["task"])

        def one():
            # names of list entries are the list's own choice: judged on everything else
            w = dict(want, name=t.name)
            check_task(t, w)
            law = want["law"]
            big = want["dx"] + want["dy"] > 30
            if law["fam"] == "mixture":
                if not big:
                    check_mi(t, want, law, r["chain"][0]["task"]["dx"], 100_000)
            else:
                check_mi(t, want, law, 0, 1)
            base, _ = make(kind, args, random.Random(0))
            n, seed = 30, rng.randrange(100)
            x, y = (np.asarray(v, float) for v in t.sample(n, seed))
            require(x.shape == (n, want["dx"]) and y.shape == (n, want["dy"]), "sample widths are the dimensions", got=(x.shape, y.shape))
            require(np.isfinite(x).all() and np.isfinite(y).all(), "finite samples")
            if unscaled is not None:
                u = by_id[t.id]
                require(u.name == t.name and u.params == t.params and u.mutual_information == t.mutual_information and (u.dim_x, u.dim_y) == (t.dim_x, t.dim_y),
                        "the rescaled task describes the task of its id", got=(u.name, u.params))
                ux, uy = (np.asarray(v, float) for v in u.sample(n, seed))
                wx, wy = apply({"t": "rescale"}, x, y)
                require(np.allclose(ux, wx, rtol=1e-3, atol=1e-3) and np.allclose(uy, wy, rtol=1e-3, atol=1e-3), "the task sampled under an id is the rescaled task of that id")
            # the law behind the maps: same as the constructor's own
            bx, by = (np.asarray(v, float) for v in base.sample(n, seed))
            for link in r["chain"][1:]:
                bx, by = apply(link["tr"][0], bx, by)
            require(np.allclose(x, bx, rtol=2e-3, atol=2e-3) and np.allclose(y, by, rtol=2e-3, atol=2e-3), "the task sampled under an id is the described one",
                    got=(x[:2], y[:2]), want=(bx[:2], by[:2]))
            if not big and not tr:
                n2 = 4000
                X, Y = (np.asarray(v, float) for v in t.sample(n2, seed + 1))
                check_law(kind, args, law, X, Y, seed)

        ctx.case(f"{which} list: {t.id}", one, timeout=300)


def run(ctx):
    q = ctx.pick(1, 12)
    base = dict(MaxChain=0, MaxDim=3, Kinds=set(ALL), Programs="==<<>>")

    def gen(label, n, kinds, chain, dim, off, long=True):
        return lambda: ctx.tlc("Tasks", dict(base, MaxChain=chain, MaxDim=dim, Kinds=set(kinds)), next_="NextLong" if long else "Next", invariants=INV, simulate=n,
                               depth=40, seed=ctx.seed * 100 + off, label=label).rows

    parts = ctx.parallel(
        lambda: ctx.tlc("Tasks", dict(base, MaxDim=2, Kinds=set(ALL) - {"lvm", "waves"}), invariants=INV, label="constructors, exhaustive").rows,
        gen("latent-variable constructors", 25 * q, ["lvm", "waves"], 0, 3, 1),
        gen("one-dimensional chains", 30 * q, ONE + MIXK, 2, 3, 2),
        gen("Gaussian chains", 30 * q, GAUSS + ["lvm"], 3, 4, 3),
        gen("Student chains", 30 * q, STUD, 3, 4, 4),
        gen("mixture chains", 12 * q, ["inliers", "concentric", "X"], 2, 4, 5),
        gen("larger tasks", 10 * q, GAUSS + STUD, 1, 7, 6),
    )
    rng = random.Random(ctx.seed)
    first = parts[0]
    rng.shuffle(first)
    # every constructor, a spread of its arguments
    per = {}
    pick = []
    for r in first:
        if per.setdefault(r["kind"], 0) < ctx.pick(9, 80):
            per[r["kind"]] += 1
            pick.append(r)
    seen, rows = set(), []
    for r in pick + [r for p in parts[1:] for r in p]:
        k = repr((r["kind"], r["args"], [x["call"] for x in r["chain"]]))
        if k not in seen:
            seen.add(k)
            rows.append(r)
    rows.sort(key=lambda r: repr((r["kind"], r["args"])))  # keeps equal bases in one worker

    def work(part):
        def go():
            done = set()
            for i, r in part:
                def one():
                    run_chain(ctx, r, random.Random(ctx.seed * 7919 + i), done)

                ctx.case(f"{r['kind']}({', '.join(r['args'])}) " + " ".join(
                    f"{x['call'][0]['t']}({x['call'][0]['a']},{x['call'][0]['flag']},{x['call'][0]['name']!r},{x['call'][0]['id']!r})" for x in r["chain"][1:]),
                    one, sample=i < 3)
        return go

    def rejections():
        from bmi.benchmark.tasks import transform_rotate_task, transform_spiral_task, transform_swissroll_task

        make_dense = constructors()["dense"]

        def go():
            for f, ok in ((transform_spiral_task, lambda a, b: a > 1 and b > 2), (transform_rotate_task, lambda a, b: a > 2 and b > 2)):
                for a in range(1, 4):
                    for b in range(1, 4):
                        if not ok(a, b):
                            require_raises(Exception, lambda: f(make_dense(a, b)), "a transform that does not exist is refused", dims=(a, b), f=f.__name__)
            require_raises(Exception, lambda: transform_swissroll_task(make_dense(2, 2), task_name="n"), "the Swiss roll needs one dimension")

        ctx.case("inapplicable transforms", go)

    n = 5
    ctx.shard(*[work(list(enumerate(rows))[k * len(rows) // n:(k + 1) * len(rows) // n]) for k in range(n)],
              lambda: (run_registry(ctx, "package"), rejections()), lambda: (run_registry(ctx, "v1"), run_registry(ctx, "demo")), lambda: run_registry(ctx, "v2"))
    return ctx.finish(
        "model_checking",
        ["task constructors with arguments from the specification's sets, dimensions up to 7, chains of up to four transforms; every shipped task list",
         "mixture ground truths and base laws are judged statistically (5.5 standard errors or more)",
         "names of entries of the shipped lists are not judged, only their ids and descriptions"],
        "distinct (constructor, arguments, transform chain), plus every entry of the shipped lists",
    )
