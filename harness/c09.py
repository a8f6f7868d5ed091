"""C09: histogram, kernel-density and CCA estimators against spec/Plugin.tla."""
import math
import random
from fractions import Fraction

import numpy as np
from harness.lib import require, require_close
from scipy.integrate import quad

KERNELS = {
    "gaussian": (lambda u: np.exp(-0.5 * u * u), np.inf),
    "tophat": (lambda u: 1.0 * (u < 1), 1.0),
    "epanechnikov": (lambda u: (1 - u * u) * (u < 1), 1.0),
    "exponential": (lambda u: np.exp(-u), np.inf),
    "linear": (lambda u: (1 - u) * (u < 1), 1.0),
    "cosine": (lambda u: np.cos(0.5 * np.pi * u) * (u < 1), 1.0),
}
_norm = {}


def norm(kernel, d):
    """Integral over R^d of the kernel with unit bandwidth."""
    if (kernel, d) not in _norm:
        k, end = KERNELS[kernel]
        vol = math.pi ** (d / 2) / math.gamma(d / 2 + 1)
        _norm[kernel, d] = d * vol * quad(lambda r: float(k(r)) * r ** (d - 1), 0, 1 if end == 1.0 else 60, limit=200)[0]
    return _norm[kernel, d]


def entropy(d2, kernel, bandwidth, d):
    n = len(d2)
    h = bandwidth
    if h == "scott":
        h = n ** (-1 / (d + 4))
    elif h == "silverman":
        h = (n * (d + 2) / 4) ** (-1 / (d + 4))
    k, _ = KERNELS[kernel]
    dens = k(np.sqrt(d2) / h).sum(axis=1) / (n * norm(kernel, d) * h**d)
    return float(-np.mean(np.log(dens))), h


def fdet(m):
    m = [[Fraction(v) for v in row] for row in m]
    n, det = len(m), Fraction(1)
    for i in range(n):
        p = next((r for r in range(i, n) if m[r][i] != 0), None)
        if p is None:
            return Fraction(0)
        if p != i:
            m[i], m[p] = m[p], m[i]
            det = -det
        det *= m[i][i]
        for r in range(i + 1, n):
            f = m[r][i] / m[i][i]
            m[r] = [a - f * b for a, b in zip(m[r], m[i])]
    return det


def run(ctx):
    k = ctx.pick(1, 12)
    dims = "=={<<1,1>>, <<1,2>>, <<2,1>>, <<2,2>>, <<3,1>>, <<1,3>>}"
    bins = "=={<<1,1>>, <<2,2>>, <<3,3>>, <<2,3>>, <<5,4>>, <<4,2>>, <<3,1>>, <<7,5>>}"
    base = dict(Ns={2}, DimPairs=dims, Coord={0, 1}, BinPairs=bins, H2s="=={<<9,4>>}", Mults={1})
    h2 = "=={<<9,4>>, <<1,4>>, <<13,2>>, <<33,1>>, <<81,16>>}"

    def sim(label, num, depth, seed, **o):
        return lambda: ctx.tlc("Plugin", {**base, **o}, invariants=["Laws", "Emit"], simulate=num, depth=depth, seed=ctx.seed * 100 + seed, label=label).rows

    H1, H2, HR, KD, C1, HX, HD, KH, C2, C3 = ctx.parallel(
        sim("histogram", 260 * k, 60, 1, Kind="hist", Ns={1, 3, 6, 10}, Coord=set(range(-4, 9)) | {20}),
        sim("histogram, larger", 40 * k, 90, 2, Kind="hist", Ns={20, 28}, Coord=set(range(0, 14)), DimPairs="=={<<1,1>>, <<2,1>>}"),
        sim("histogram, rare cells", 40 * k, 60, 6, Kind="hist", Ns={3, 6, 10}, Coord=set(range(0, 9)), DimPairs="=={<<1,1>>, <<2,1>>}", Mults={50, 999, 5000, 20000}),
        sim("kernel densities", 220 * k, 60, 3, Kind="kde", Ns={3, 6, 9}, Coord=set(range(-3, 5)), H2s=h2),
        sim("canonical correlations", 200 * k, 90, 4, Kind="cca", Ns={8, 14}, Coord=set(range(-3, 4)) | {7}),
        lambda: ctx.tlc("Plugin", {**base, **dict(Kind="hist", Ns={3}, DimPairs="=={<<1,1>>}", Coord={0, 1, 4}, BinPairs="=={<<2,3>>}")},
                        invariants=["Laws", "Emit"], label="histogram, exhaustive").rows,
        sim("histogram, many dimensions", 30 * k, 90, 7, Kind="hist", Ns={4, 9}, Coord=set(range(0, 8)), DimPairs="=={<<4,2>>, <<1,5>>, <<5,1>>, <<3,3>>}",
            BinPairs="=={<<2,2>>, <<3,2>>, <<2,3>>}"),
        sim("kernel densities, many dimensions", 40 * k, 120, 8, Kind="kde", Ns={4, 8}, Coord=set(range(-3, 5)), H2s=h2, DimPairs="=={<<4,4>>, <<6,1>>, <<1,7>>, <<5,6>>}"),
        sim("canonical correlations, many dimensions", 40 * k, 700, 9, Kind="cca", Ns={40}, Coord=set(range(-3, 4)) | {7},
            DimPairs="=={<<6,6>>, <<7,5>>, <<2,8>>, <<9,3>>, <<8,8>>}"),
        sim("canonical correlations, more than ten dimensions", 4 * k, 1600, 10, Kind="cca", Ns={60}, Coord=set(range(-3, 4)) | {7}, DimPairs="=={<<11,12>>, <<13,11>>}"),
    )
    H1, KD, C1 = H1 + HD, KD + KH, C1 + C2 + C3
    from bmi.estimators import CCAMutualInformationEstimator, KDEMutualInformationEstimator
    from bmi.estimators._histogram import HistogramEstimator

    rng = random.Random(ctx.seed)

    def data(r):
        c = r["cfg"]
        A = np.asarray(r["flat"]).reshape(c["n"], c["dx"] + c["dy"])
        A = np.repeat(A, [c["m"]] + [1] * (c["n"] - 1), axis=0)  # the first row stands for m equal rows
        return A[:, : c["dx"]], A[:, c["dx"]:]

    containers = [lambda a: a, lambda a: a.astype(float), lambda a: a.tolist(), lambda a: np.asfortranarray(a.astype(float)), lambda a: a.astype(np.int32)]
    seen = set()

    def fresh(tag, r):
        key = f"{tag} {r['cfg']} {r['flat']}"
        if key in seen:
            return None
        seen.add(key)
        return key

    def variants(est, x, y, want, clause, tol, skip_swap=False, swapped=None):
        """Row permutations, column order, containers, swapping of the roles."""
        f = rng.choice(containers)
        require_close(est.estimate(f(x), f(y)), want, clause, tol, tol)
        p = list(range(len(x)))
        rng.shuffle(p)
        require_close(est.estimate(x[p], y[p]), want, clause + " (rows permuted)", tol, tol)
        require_close(est.estimate_with_info(x, y).mi_estimate, want, clause + " (with info)", tol, tol)
        if not skip_swap:
            require_close((swapped or est).estimate(y, x), want, clause + " (X and Y swapped)", tol, tol)

    # ----------------------------------------------------------- histogram
    for r in H1 + H2 + HR + (HX if len(HX) < 900 else rng.sample(HX, 900)):
        key = fresh("hist", r)
        if key is None:
            continue
        c, o = r["cfg"], r["out"]
        nx, ny = c["p"]
        nb = [nx] * c["dx"] + [ny] * c["dy"]
        exact_edges = all((not e) or rg % b == 0 or (b & (b - 1)) == 0 for e, rg, b in zip(o["edge"], o["range"], nb))
        std = rng.random() < 0.5 and not any(o["edge"])
        if not exact_edges and not std and any(o["edge"]):
            ctx.count("histogram: value on a rounded edge, skipped")
            continue
        if max(nx ** c["dx"], 1) * max(ny ** c["dy"], 1) > 3000:
            continue
        x, y = data(r)

        def go():
            n = c["n"] + c["m"] - 1
            want = math.fsum(m / n * math.log(m * n / (a * b)) for _, m, a, b in o["cells"])
            kw = dict(n_bins_x=nx)
            if ny != nx or rng.random() < 0.5:
                kw["n_bins_y"] = ny
            if not (std and rng.random() < 0.5):
                kw["standardize"] = std
            e = HistogramEstimator(**kw)
            variants(e, x, y, want, "sum of p log(p/(px py)) over the joint bins", 1e-9,
                     swapped=HistogramEstimator(n_bins_x=ny, n_bins_y=nx, standardize=std))
            # affine maps of single coordinates leave the cells alone
            if not any(o["edge"]):
                s = 2.0 ** rng.randint(-3, 3)
                require_close(e.estimate(x * s + 5, y), want, "bins are equally spaced over the range of the data", 1e-9, 1e-9)
            p = e.parameters()
            require((p.n_bins_x, p.n_bins_y, p.standardize) == (nx, ny, std), "effective parameters are reported")

        ctx.case(key, go, sample=r["flat"])
        ctx.count("histogram")

    # ---------------------------------------------------- kernel densities
    for r in KD:
        key = fresh("kde", r)
        if key is None:
            continue
        c, o = r["cfg"], r["out"]
        n, dx, dy = c["n"], c["dx"], c["dy"]
        x, y = data(r)
        h = math.sqrt(c["p"][0] / c["p"][1])
        mode = rng.choice(["tophat", "epanechnikov", "mixed", "mixed", "standardize"])

        def go():
            if mode in ("tophat", "epanechnikov"):
                e = KDEMutualInformationEstimator(kernel_xy=mode, bandwidth_xy=h, standardize=False)
                want = {}
                for s, d in (("x", dx), ("y", dy), ("xy", dx + dy)):
                    vals = o[s]["tophat"] if mode == "tophat" else [a / b for a, b in o[s]["epan"]]
                    want[s] = -math.fsum(math.log(v / (n * norm(mode, d) * h**d)) for v in vals) / n
                kern = bw = None
            else:
                std = mode == "standardize"
                if std and any(v == 0 for v in o["var"]):
                    std = False
                # (scikit-learn's cosine kernel is not normalised in more than one dimension)
                size = dict(x=dx, y=dy, xy=dx + dy)
                kern = {s: rng.choice([q for q in sorted(KERNELS) if q != "cosine" or size[s] == 1]) for s in ("x", "y", "xy")}
                bw = {s: rng.choice([0.8, 1.7, 2.6, "scott", "silverman", h]) for s in ("x", "y", "xy")}
                kw = dict(kernel_xy=kern["xy"], bandwidth_xy=bw["xy"], standardize=std)
                for s in ("x", "y"):
                    if rng.random() < 0.4:
                        kern[s] = kern["xy"]
                        if rng.random() < 0.3:
                            kw["kernel_" + s] = None
                    else:
                        kw["kernel_" + s] = kern[s]
                    if rng.random() < 0.4:
                        bw[s] = bw["xy"]
                        if rng.random() < 0.3:
                            kw["bandwidth_" + s] = None
                    else:
                        kw["bandwidth_" + s] = bw[s]
                if kern["xy"] == "tophat" and rng.random() < 0.5:
                    del kw["kernel_xy"]
                if bw["xy"] == "scott" and rng.random() < 0.5:
                    del kw["bandwidth_xy"]
                if std and rng.random() < 0.5:
                    del kw["standardize"]
                e = KDEMutualInformationEstimator(**kw)
                want = {}
                XY = np.concatenate([x, y], axis=1).astype(float)
                for s, d, cols in (("x", dx, range(dx)), ("y", dy, range(dx, dx + dy)), ("xy", dx + dy, range(dx + dy))):
                    if std:
                        d2 = sum((XY[:, [j]] - XY[:, [j]].T) ** 2 * n * n / o["var"][j] for j in cols)
                    else:
                        d2 = np.asarray(o[s]["d2"], dtype=float)
                    want[s], hh = entropy(d2, kern[s], bw[s], d)
                    gap = np.abs(np.sqrt(d2) - hh)
                    if kern[s] in ("tophat", "epanechnikov", "linear", "cosine") and gap.min() < 1e-9:
                        return  # on the boundary of the kernel: rounding decides
                p = e.parameters()
                for s in ("x", "y", "xy"):
                    require(getattr(p, "kernel_" + s) == kern[s] and getattr(p, "bandwidth_" + s) == bw[s], "effective kernels and bandwidths are reported",
                            got=repr(p), space=s)
                require(p.standardize == std, "standardize is reported")
            mi = want["x"] + want["y"] - want["xy"]
            got = e.estimate_entropies(x, y)
            for a, w in (("entropy_x", want["x"]), ("entropy_y", want["y"]), ("entropy_xy", want["xy"]), ("mutual_information", mi)):
                require_close(getattr(got, a), w, f"{a}: minus the mean log density estimate", 1e-7, 1e-7, kernel=kern or mode, bandwidth=bw or h)
            f = rng.choice(containers)
            require_close(e.estimate(f(x), f(y)), mi, "mutual information is h_x + h_y - h_xy", 1e-7, 1e-7)
            p = list(range(n))
            rng.shuffle(p)
            require_close(e.estimate(x[p], y[p]), mi, "unchanged when the rows are permuted", 1e-7, 1e-7)
            if bw is None or not any(isinstance(v, str) for v in bw.values()):
                # the same empirical measure with every point repeated: larger samples
                m = rng.choice([40, 130]) if n * 130 <= 1300 else 40
                g2 = e.estimate_entropies(np.repeat(x, m, axis=0), np.repeat(y, m, axis=0))
                for a, w in (("entropy_x", want["x"]), ("entropy_y", want["y"]), ("entropy_xy", want["xy"]), ("mutual_information", mi)):
                    require_close(getattr(g2, a), w, f"{a}: repeating every point leaves the density estimate unchanged", 1e-7, 1e-7, repeats=m)
                if not e.parameters().standardize:
                    # other units for data and bandwidths shift the entropies by dim * log(scale)
                    sc = 2.0 ** rng.choice([-40, -17, 17, 40])
                    q = e.parameters()
                    e2 = KDEMutualInformationEstimator(
                        kernel_xy=q.kernel_xy, kernel_x=q.kernel_x, kernel_y=q.kernel_y, bandwidth_xy=q.bandwidth_xy * sc,
                        bandwidth_x=q.bandwidth_x * sc, bandwidth_y=q.bandwidth_y * sc, standardize=False)
                    rep = rng.choice([1, 1, max(2, 60 // n)])
                    g3 = e2.estimate_entropies(np.repeat(x, rep, axis=0) * sc, np.repeat(y, rep, axis=0) * sc)
                    for a, w, d in (("entropy_x", want["x"], dx), ("entropy_y", want["y"], dy), ("entropy_xy", want["xy"], dx + dy), ("mutual_information", mi, 0)):
                        require_close(getattr(g3, a), w + d * math.log(sc), f"{a}: minus the mean log density in other units", 1e-7, 1e-7, scale=sc)

        ctx.case(key + " " + mode, go, sample=r["flat"])
        ctx.count("kernel density")

    # -------------------------------------------------------------- CCA
    for r in C1:
        key = fresh("cca", r)
        if key is None:
            continue
        c = r["cfg"]
        dx = c["dx"]
        cov = r["out"]["cov"]
        d = len(cov)
        a, b, j = fdet([row[:dx] for row in cov[:dx]]), fdet([row[dx:] for row in cov[dx:]]), fdet(cov)
        prod = np.prod([cov[i][i] for i in range(d)], dtype=float)
        if prod == 0 or float(j) / prod < 1e-3:
            ctx.count("cca: nearly singular, skipped")
            continue
        x, y = data(r)

        def go():
            want = 0.5 * math.log(a * b / j)
            if d == 2:
                require_close(0.5 * math.log(r["out"]["ratio"][0] / r["out"]["ratio"][1]), want, "oracle", 1e-12)
            scale = rng.random() < 0.6
            e = CCAMutualInformationEstimator(scale=scale) if not scale or rng.random() < 0.5 else CCAMutualInformationEstimator()
            variants(e, x, y, want, "Gaussian mutual information of the empirical covariance", 2e-3 if d > 2 else 1e-7)

        ctx.case(key, go, sample=r["flat"])
        ctx.count("cca")

    return ctx.finish(
        "model_checking",
        ["integer data sets of at most 28 points in at most 4 dimensions; values on a bin edge or kernel boundary whose position is subject to rounding are skipped",
         "kernel normalisations by numerical quadrature; CCA is iterative, compared to 2e-3"],
        "distinct (estimator, data set, configuration) whose plug-in quantities the specification computes exactly",
    )
