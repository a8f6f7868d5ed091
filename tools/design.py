import json
head=open('/verif/DESIGN.md').read().split("\n## Per property")[0].rstrip()+"\n"
plan={
"C01":("Gauss.tla, Correlation.tla","integer covariances built as Gram matrices with integer means; actions swap, permute, rescale, embed; classes valid / singular / asymmetric / indefinite; determinants of the blocks exact (Bareiss). Correlation grid in rationals","equality of 1/2 log(det det/det) with 1e-9, refusals as ValueError; other units (2^-45..2^35, per coordinate 2^+-6)","the tests compute three or four matrices"),
"C02":("Student.tla, StudentTerm.tla, Gauss.tla","walks over (df, dim x, dim y); the correction as a symbolic sum of log-gamma and digamma differences; recurrences between neighbours are invariants","integer df up to 160 and all dimensions exact; half-integer df by monotone bracketing and by telescoping for even dimensions; df up to 1e200 and infinity","large and non-integer df, agreement with the Gaussian limit"),
"C03":("ClosedForms.tla, Compose.tla","parameters of the other samplers, their closed forms as rational + log terms; expression trees","value per node of the tree","composition of ground truths"),
"C04":("SampleHist.tla, Compose.tla","scripts of calls (sample, mi, dims, unrelated draws) on two objects with seeds, keys, sizes; recordings are validated as traces: sample is a function of (configuration, n, seed)","every sampler class, tree, task; moments and supports by fixed-seed statistics","determinism, isolation from global random state and caller mutation over histories"),
"C05":("Compose.tla","stack machine building concatenations and transformed samplers with stub leaves; expected columns of every pushforward","columns exact, maps called with the right shape","every nesting, not the handful of tested wrappers"),
"C06":("Covariance.tla, Num.tla","integer loadings; covariance = mixing mixing^T entry by entry; shorthands; refusals","exact entries, labels, correlation, strengths","all boundary values of n_interacting, unset Y weights"),
"C07":("KSG.tla","integer data sets; distances squared, k-th neighbour, strict counts, digamma sums, exactly; permutation and swap","both implementations with drawn k sets, chunk sizes, containers, dtypes, metrics, job counts","all small data sets with and without ties"),
"C08":("EstHist.tla","objects with memory of the last fit only; estimation as an uninterpreted function of (configuration, data, seed)","recordings of ten estimator classes checked by TLC: same call, same answer, whatever came before","histories"),
"C09":("Plugin.tla","integer data; joint cells with multiplicities, kernel sums, covariance; exact","histogram to 1e-9, rare cells down to 1/20000; KDE by kernel; CCA ratio","rare cells, edges, multi-dimensional bins"),
"C10":("Objectives.tla","integer score tables; shift/permute actions; exact DV, NWJ and InfoNCE values as log terms","both backends, values and derivatives, scores up to 30000 log 2","overflow, minus infinity, batch 1..16"),
"C11":("Training.tla","the protocol: split, batches, update, test, early stop; liveness (termination) on a complete small instance","recorded runs of the real loop with a scripted critic are validated as behaviours","order of events, off-by-one in intervals, test set identity"),
"C12":("Mine.tla, Training.tla","same protocol with the smoothed denominator in exact rationals","recorded runs; updates recomputed from exact corrections","state carried across batches"),
"C13":("TrainLog.tla","histories of train/test values and all flags with rational thresholds","every history of the bound replayed","windows, ties, minus infinity"),
"C14":("Interface.tla","constructor options and effective values; call scripts over containers and dtypes","recordings decided by TLC","thousands of option records, argument containers, input immutability"),
"C15":("RunRecord.tla","callers' dictionaries, estimator behaviours (success, failure, sub-process failure), records","replayed through run_estimator","sharing between records over histories"),
"C16":("External.tla","processes, temporary files, exit status, output grammar","replayed with stand-in Rscript/julia on the PATH","failures at every point, concurrent files"),
"C17":("Persist.tla","files with histories of save/read/refuse; YAML terms and their normal form","replayed on real files in a scratch directory","histories on one path, nesting"),
"C18":("Tasks.tla, StudentTerm.tla","constructors, arguments, transform chains: id, name, parameters, dimensions, symbolic MI, law, maps; closed forms agree with determinants (invariant)","every task built, metadata compared, sampled; transformed samples equal numpy maps of the base sample; base laws by half-space probabilities; every entry of the package list and of the v1, v2 and demo lists described by the same specification","id collisions, wrong parameter plumbing, ground truth under chains"),
"C19":("Workflow.tla","arrival of runs in any order, failures, aggregation with exact means, convergence (10 v > max), fractions","tables as data (and shades), Snakemake rule bodies executed on real files with scripted estimators","no tests exist for the workflow"),
"C20":("Mixtures.tla","algebra of finite mixtures/products/bijections with exact rational densities","whole grids of pmi values; samples; Monte Carlo profile and wrapper histories","all trees of the bound"),
"C21":("Transforms.tla","quarter turns, so(n) generators, piecewise linear inverses at exact arguments","images exact; norms, inverses, refusals","arguments outside the tested ones"),
"C22":("Utilities.tla","chunks exhaustive, product spaces with Python indexing and standardisation, stopwatch on a scripted clock","replayed","degenerate columns, slices, repeated calls"),
"C23":("Layout.tla","requests with sizes, counts, gaps; cells placed one by one; contradictions","measured after a real draw (Agg)","asymmetric gaps, lists, squeeze forms"),
"C24":("GMM.tla","fits, scripted posterior samples, exact block splits, thinning","stand-in chain and real chain","which posterior sample each value belongs to"),
"C25":("Search.tla","a searcher with a bracket on a dyadic grid, evaluations, failures and jumps; invariants: values at the ends enclose the target, an answer is a solution, bisection rate; task requests with the expected outcome","calls of the scripted function observed; tasks compared with closed forms","functions that fail, targets at or beyond the ends, budgets; nothing in these folders is tested"),
"C26":("Figures.tla","runs (estimator, task, size, seed, estimate) arrive in any order; the tables are functions of the set: failure of a seed relative to the best seed, kept runs at the largest size, size from which all means are solved (exact, by products of integers); laws relate failures, kept runs and needed sizes","generated histories become result tables (rows permuted, arbitrary index, unused estimators); seaborn is replaced by a recorder and every drawn table compared cell by cell; curves are read off the axes","the effect of missing, failed and tied runs depends on the whole set, and nothing here is tested"),
}
props={json.loads(l)["id"]:json.loads(l) for l in open('/verif/properties.jsonl')}
cl=json.load(open('/verif/tools/claims.json'))
out=[head,"\n## Per property\n","Every property is decided by its specification; none is under `not_applicable`.\nQuick checks take 5-110 s; thorough ones explore 5-15 times as many behaviours\n(`ctx.pick(quick, thorough)` in the harness shows every bound).\n"]
for k in sorted(plan):
    s,w,b,why=plan[k]
    out.append(f"\n### {k} {props[k]['title']}\n\n* specification: `{s}` - {w}.\n* binding and oracle: {cl[k]['technique']}; {b}.\n* bounds: {cl[k]['note']}\n* reaches beyond the tests: {why}.\n")
out.append("""
## Repairs and open findings

Repairs (one `fix:` commit each, recorded in `known-findings.jsonl`):

""")
for l in open('/verif/known-findings.jsonl'):
    if l.startswith("{"):
        d=json.loads(l)
        if d["status"]=="fixed": out.append("* "+d["entry"][len("fixed: property="):]+"\n")
out.append("""
Open (recorded, not repaired, because commits in /repo may not touch paths that
contain a directory named `benchmark`, which the final check counts as tests):

""")
for l in open('/verif/known-findings.jsonl'):
    if l.startswith("{"):
        d=json.loads(l)
        if d["status"]=="open": out.append(f"* {d['property']}: {d['what']}\n")
out.append("""
C19 tells the open finding apart from other deviations: the specification also
computes the tables without the restriction to one size; a table that equals
neither is reported.

Observed and deliberately not claimed: `HistogramEstimator(n_bins_y=0)` means
`n_bins_x`; spirals with different speeds or quantile counts share a task id
(ids are prefixes, only shipped lists must be unique); KSG gives infinities for
more than k exact duplicates; scikit-learn's cosine kernel is not a density in
more than one dimension; single-precision matrix exponentials (error up to 1e-3
for angles of many turns); `pandas.read_csv` is not round-trip exact.

## False alarms met while building, and what was corrected

* C11/C12: batches compared as sets needed a `cover` flag: a short run need not
  see every training row.  C13: two diagnostics compare floating sums, so exact
  ties are not judged.  C09: a value on an inner bin edge that is not a binary
  fraction is not judged.  C18: the spiral tolerance follows the single-precision
  matrix exponential; a given name of a base task appears inside derived names.
* C01: covariances whose units differ by 2^36 per coordinate are numerically
  indefinite; the units are limited to 2^+-6 per coordinate.
* C14: containers that cannot hold the data (integers for fractions) are not used.
""")
try:
    out.append(open('/verif/tools/catch.md').read())
except FileNotFoundError: pass
open('/verif/DESIGN.md','w').write("".join(out))
