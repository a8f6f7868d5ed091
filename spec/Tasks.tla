------------------------------- MODULE Tasks -------------------------------
(***************************************************************************)
(* Benchmark tasks.  A behaviour picks a task constructor and its           *)
(* arguments one at a time, constructs the task and then applies task       *)
(* transforms.  For every task of the chain the specification carries the   *)
(* id, the name, the parameters, the dimensions, the exact mutual           *)
(* information as a symbolic sum, a description of the law of (X, Y) and    *)
(* the maps to be applied to a sample of the first task of the chain.       *)
(*                                                                          *)
(* A number is [s |-> how the caller writes it, q |-> its exact value].     *)
(* In names, >< stands for the multiplication sign.                         *)
(***************************************************************************)
EXTENDS StudentTerm, Json
CONSTANTS MaxChain, MaxDim, Kinds, Programs

VARIABLES kind, args, chain, phase
vars == <<kind, args, chain, phase>>

(*------------------------------ numbers ---------------------------------*)
N(s, n, d) == [s |-> s, q |-> Q(n, d)]
I(n) == N(ToString(n), n, 1)
ZeroN == N("0.0", 0, 1)
(* value printed with k decimals, half to even never matters for the values used *)
Decimals(q, k) ==
  LET scale == Pow(10, k)
      t == (2 * Abs(q[1]) * scale + q[2]) \div (2 * q[2])
      whole == t \div scale
      frac == t % scale
      pad == FoldSeq(LAMBDA j, acc : IF frac < Pow(10, j) /\ j > 0 THEN acc \o "0" ELSE acc, "", [j \in 1..(k - 1) |-> j])
  IN  (IF q[1] < 0 THEN "-" ELSE "") \o ToString(whole) \o "." \o pad \o ToString(frac)
Percent(q) == ToString((100 * q[1] * 2 + q[2]) \div (2 * q[2])) \o "%"

Corrs == { N("0.75", 3, 4), N("-0.5", -1, 2), N("0.0", 0, 1), N("0.9", 9, 10), N("0.25", 1, 4) }
Epses == { N("0.1", 1, 10), N("0.75", 3, 4), N("0.5", 1, 2), N("2.5", 5, 2), I(1) }
Offs == { N("0.5", 1, 2), N("0.25", 1, 4), N("0.0", 0, 1), N("0.8", 4, 5) }
Strengths == { N("2.0", 2, 1), N("1.0", 1, 1), N("0.5", 1, 2), I(3), N("0.0", 0, 1) }
Weights == { N("0.0", 0, 1), N("0.5", 1, 2), N("1.0", 1, 1), I(2) }
Dfs == { I(1), I(2), I(5), I(12) }
Fracs == { N("0.2", 1, 5), N("0.5", 1, 2), N("0.75", 3, 4) }
Speeds == { N("1.0", 1, 1), N("0.5", 1, 2), I(2) }
Alphas == { N("0.5", 1, 2), I(2), N("1.5", 3, 2) }
Dims == 1..MaxDim

(*--------------------------- mutual information -------------------------*)
One(c) == [c |-> c, f |-> "one", a |-> <<1, 1>>]
Log(c, a) == [c |-> c, f |-> "log", a |-> a]
(* equicorrelated coordinates: det = (1 - r)^(n-1) (1 + (n-1) r) *)
Lin1(n, r) == QAdd(<<1, 1>>, QMul(QI(n - 1), r))
DenseMI(dx, dy, r) ==
  << Log(<<1, 2>>, Lin1(dx, r)), Log(<<1, 2>>, Lin1(dy, r)), Log(<<-1, 2>>, QSub(<<1, 1>>, r)), Log(<<-1, 2>>, Lin1(dx + dy, r)) >>
(* k independent pairs with correlation r *)
PairMI(k, r) == IF k = 0 THEN <<>> ELSE << Log(Q(-k, 2), QSub(<<1, 1>>, QMul(r, r))) >>
SparseCorr(l) == LET s == QMul(l, l) IN QDiv(s, QAdd(s, <<1, 1>>))
UniformMI(e) == IF QLess(<<1, 2>>, e) THEN << One(QDiv(<<1, 4>>, e)) >> ELSE << One(e), Log(<<-1, 1>>, QMul(<<2, 1>>, e)) >>

(*--------------------------- covariance matrices ------------------------*)
DenseCov(n, r) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<1, 1>> ELSE r]]
(* the latent-variable model with individual noise 1, see Covariance.tla   *)
LVMCov(dx, dy, k, al, la, be, et) ==
  LET sq(v) == QMul(v, v)
  IN  [i \in 1..(dx + dy) |-> [j \in 1..(dx + dy) |->
        LET xi == i <= dx
            xj == j <= dx
            ii == IF xi THEN i ELSE i - dx
            jj == IF xj THEN j ELSE j - dx
        IN  QSum(<< sq(al),
                    IF xi = xj THEN sq(be) ELSE <<0, 1>>,
                    IF i = j THEN <<1, 1>> ELSE <<0, 1>>,
                    IF ii = jj /\ ii <= k THEN sq(la) ELSE <<0, 1>>,
                    IF i = j /\ ii > k THEN sq(et) ELSE <<0, 1>> >>)]]
(* det of a rational matrix whose entries have denominator dividing 4 *)
Int4(m) == [i \in DOMAIN m |-> [j \in DOMAIN m |-> LET e == QMul(QI(4), m[i][j]) IN e[1]]]
Block(m, a, b) == SubMat(m, Range1(a, b), Range1(a, b))
DetMI(dx, dy, m) ==
  LET n == TLCEval(Int4(m))
  IN  << Log(<<1, 2>>, Q(Det(Block(n, 1, dx)), 1)), Log(<<1, 2>>, Q(Det(Block(n, dx + 1, dx + dy)), 1)), Log(<<-1, 2>>, Q(Det(n), 1)) >>

(*------------------------------ mixtures --------------------------------*)
(* a covariance entry is v * sqrt(r) *)
E1(v) == [v |-> v, r |-> <<1, 1>>]
Diag(s) == [i \in DOMAIN s |-> [j \in DOMAIN s |-> E1(IF i = j THEN s[i] ELSE <<0, 1>>)]]
Comp(w, mean, cov) == [w |-> w, mean |-> mean, cov |-> cov]
XComps(r) == [i \in 1..2 |-> Comp(<<1, 2>>, << <<0, 1>>, <<0, 1>> >>,
   LET c == IF i = 1 THEN QNeg(r) ELSE r IN << << E1(<<1, 1>>), E1(c) >>, << E1(c), E1(<<1, 1>>) >> >>)]
AIComps ==
  LET w == <<1, 6>>
      leg(c) == << << E1(<<1, 25>>), [v |-> c, r |-> <<1, 125>>] >>, << [v |-> c, r |-> <<1, 125>>], E1(<<1, 5>>) >> >>
  IN  << Comp(w, << <<1, 1>>, <<0, 1>> >>, Diag(<< <<1, 100>>, <<1, 5>> >>)),
         Comp(w, << <<1, 1>>, <<1, 1>> >>, Diag(<< <<1, 20>>, <<1, 1000>> >>)),
         Comp(w, << <<1, 1>>, <<-1, 1>> >>, Diag(<< <<1, 20>>, <<1, 1000>> >>)),
         Comp(w, << <<-4, 5>>, <<-1, 5>> >>, Diag(<< <<3, 100>>, <<1, 1000>> >>)),
         Comp(w, << <<-6, 5>>, <<0, 1>> >>, leg(<<19, 20>>)),
         Comp(w, << <<-2, 5>>, <<0, 1>> >>, leg(<<-19, 20>>)) >>
GalaxyComps(d) == [i \in 1..2 |-> Comp(<<1, 2>>,
   LET m == QMul(IF i = 1 THEN <<-1, 2>> ELSE <<1, 2>>, d) IN <<m, m, m>>, Diag(<< <<1, 1>>, <<1, 1>>, <<1, 1>> >>))]
WavesComps(n) == [i \in 1..n |-> Comp(Q(1, n), << Q(3 * (i - 1), 2), <<0, 1>>, Q(3 * ((i - 1) % 4), 2) >>,
   Diag(<< <<1, 10>>, <<1, 1>>, <<1, 10>> >>))]
(* unit variances, k pairs with the correlation of the sparse scheme *)
SparseMatrix(dx, dy, k, l) ==
  [i \in 1..(dx + dy) |-> [j \in 1..(dx + dy) |->
     IF i = j THEN <<1, 1>> ELSE IF MaxI(i, j) - MinI(i, j) = dx /\ MinI(i, j) <= k THEN SparseCorr(l) ELSE <<0, 1>>]]
RingComps(dx, n) == [i \in 1..n |-> Comp(Q(1, n), [j \in 1..(dx + 1) |-> IF j <= dx THEN <<0, 1>> ELSE QI(i)],
   Diag([j \in 1..(dx + 1) |-> IF j <= dx THEN QI(i * i) ELSE <<1, 10000>>]))]
InlierComps(dx, dy, k, l, f) ==
  LET sig(on) == [i \in 1..(dx + dy) |-> [j \in 1..(dx + dy) |-> E1(SparseMatrix(dx, dy, IF on THEN k ELSE 0, l)[i][j])]]
      zero == [i \in 1..(dx + dy) |-> <<0, 1>>]
  IN  << Comp(QSub(<<1, 1>>, f), zero, sig(TRUE)), Comp(f, zero, sig(FALSE)) >>

(*------------------------------- tasks ----------------------------------*)
(* law: how (X, Y) is distributed before any map (for the latent-variable   *)
(* model up to the scale of every coordinate); maps: applied in order       *)
NoLaw == [fam |-> "none", cov |-> <<>>, df |-> "none", comps |-> <<>>, q |-> <<0, 1>>]
Elliptical(fam, cov, df) == [NoLaw EXCEPT !.fam = fam, !.cov = cov, !.df = df]
Mix(comps) == [NoLaw EXCEPT !.fam = "mixture", !.comps = comps]
P(k, v) == <<k, v.s>>
Task(id, name, params, dx, dy, mi, law) ==
  [id |-> id, name |-> name, params |-> params, dx |-> dx, dy |-> dy, mi |-> mi, law |-> law, st |-> <<>>, inner |-> "none"]
D2(dx, dy) == ToString(dx) \o "-" \o ToString(dy)
X2(dx, dy) == ToString(dx) \o " >< " \o ToString(dy)

Student(dx, dy, df, cov, mi, id, name, params) ==
  [Task(id, name, <<P("dof", df)>> \o params, dx, dy, mi, Elliptical("student", cov, df.s))
     EXCEPT !.st = <<Correction(df.q[1], dx, dy)>>]

(* the arguments of every constructor, in order; an argument is chosen from a set that may depend on earlier ones *)
NArgs(k) ==
  CASE k \in {"additive", "normal", "bimodal", "X"} -> 1 [] k = "AI" -> 0 [] k \in {"galaxy", "concentric"} -> 2 [] k = "waves" -> 3
    [] k = "dense" -> 3 [] k = "sparse" -> 4 [] k = "2pair" -> 3 [] k = "lvm" -> 7
    [] k = "st-identity" -> 3 [] k = "st-dense" -> 4 [] k = "st-sparse" -> 5 [] k = "st-2pair" -> 4 [] k = "inliers" -> 5
Small(d) == d.q[1] <= 2
DimSet == { I(d) : d \in Dims }
Pairs(a) == { I(m) : m \in 0..MinI(a[1].q[1], a[2].q[1]) }
ArgSet(k, i, a) ==
  CASE k = "additive" -> Epses
    [] k \in {"normal", "bimodal"} -> Corrs
    [] k = "X" -> { N("0.9", 9, 10), N("0.5", 1, 2), N("0.0", 0, 1) }
    [] k = "galaxy" -> IF i = 1 THEN { N("0.5", 1, 2), N("1.0", 1, 1), N("0.0", 0, 1) } ELSE { N("3.0", 3, 1), N("1.0", 1, 1), N("0.0", 0, 1) }
    [] k = "waves" -> IF i = 1 THEN { I(12), I(1), I(5), I(3) } ELSE IF i = 2 THEN { N("5.0", 5, 1), N("0.5", 1, 2) } ELSE { N("3.0", 3, 1), N("1.0", 1, 1) }
    [] k = "concentric" -> IF i = 1 THEN DimSet ELSE { I(m) : m \in {1, 3, 5} }
    [] k = "dense" -> IF i <= 2 THEN DimSet ELSE Offs
    [] k = "2pair" -> IF i <= 2 THEN { d \in DimSet : d.q[1] >= 2 } ELSE Strengths
    [] k = "sparse" -> IF i <= 2 THEN DimSet ELSE IF i = 3 THEN Pairs(a) ELSE Strengths
    [] k = "lvm" -> IF i <= 2 THEN { d \in DimSet : Small(d) } ELSE IF i = 3 THEN Pairs(a) ELSE Weights
    [] k = "st-identity" -> IF i <= 2 THEN DimSet ELSE Dfs
    [] k = "st-dense" -> IF i <= 2 THEN DimSet ELSE IF i = 3 THEN Dfs ELSE Offs
    [] k = "st-sparse" -> IF i <= 2 THEN DimSet ELSE IF i = 3 THEN Dfs ELSE IF i = 4 THEN Pairs(a) ELSE Strengths
    [] k = "st-2pair" -> IF i <= 2 THEN { d \in DimSet : d.q[1] >= 2 } ELSE IF i = 3 THEN Dfs ELSE Strengths
    [] k = "inliers" -> IF i <= 2 THEN DimSet ELSE IF i = 3 THEN Pairs(a) ELSE IF i = 4 THEN Strengths ELSE Fracs

Construct(k, a) ==
  LET n(i) == a[i].q[1]
      s(i) == a[i].s
      q(i) == a[i].q
  IN
  CASE k = "additive" -> Task("1v1-additive-" \o s(1), "Uniform 1 >< 1 (additive noise=" \o s(1) \o ")", <<P("epsilon", a[1])>>, 1, 1, UniformMI(q(1)),
         [NoLaw EXCEPT !.fam = "additive", !.q = q(1)])
    [] k = "normal" -> Task("1v1-normal-" \o s(1), "Bivariate normal 1 >< 1", <<P("gaussian_correlation", a[1])>>, 1, 1, PairMI(1, q(1)),
         Elliptical("normal", << <<QI(1), q(1)>>, <<q(1), QI(1)>> >>, "none"))
    [] k = "bimodal" -> [Task("1v1-bimodal-" \o s(1), "Bimodal 1 >< 1", <<P("gaussian_correlation", a[1])>>, 1, 1, PairMI(1, q(1)),
         Elliptical("normal", << <<QI(1), q(1)>>, <<q(1), QI(1)>> >>, "none")) EXCEPT !.inner = "bimodal"]
    [] k = "X" -> Task("1v1-X-" \o s(1), "X 1 >< 1", <<P("gaussian_correlation", a[1])>>, 1, 1, <<>>, Mix(XComps(q(1))))
    [] k = "AI" -> Task("1v1-AI", "AI 1 >< 1", <<>>, 1, 1, <<>>, Mix(AIComps))
    [] k = "galaxy" -> [Task("2v1-galaxy-" \o s(1) \o "-" \o s(2), "Galaxy 2 >< 1", <<P("speed", a[1]), P("distance", a[2])>>, 2, 1, <<>>, Mix(GalaxyComps(q(2))))
         EXCEPT !.inner = "galaxy"]
    [] k = "waves" -> [Task("2v1-waves-" \o s(1) \o "-" \o s(2) \o "-" \o s(3), "Waves 2 >< 1",
         <<P("n_components", a[1]), P("wave_amplitude", a[2]), P("wave_frequency", a[3])>>, 2, 1, <<>>, Mix(WavesComps(n(1)))) EXCEPT !.inner = "waves"]
    [] k = "concentric" -> Task(s(1) \o "v1-concentric_gaussians-" \o s(2), "Concentric " \o s(1) \o " >< 1", <<P("n_components", a[2])>>, n(1), 1, <<>>, Mix(RingComps(n(1), n(2))))
    [] k = "dense" -> Task("multinormal-dense-" \o D2(n(1), n(2)) \o "-" \o s(3), "Multinormal " \o X2(n(1), n(2)) \o " (dense)", <<P("off_diag", a[3]), <<"covariance", "matrix">>>>,
         n(1), n(2), DenseMI(n(1), n(2), q(3)), Elliptical("normal", DenseCov(n(1) + n(2), q(3)), "none"))
    [] k \in {"sparse", "2pair"} ->
         LET m == IF k = "2pair" THEN I(2) ELSE a[3]
             l == IF k = "2pair" THEN a[3] ELSE a[4]
         IN  Task("multinormal-sparse-" \o D2(n(1), n(2)) \o "-" \o m.s \o "-" \o l.s,
               "Multinormal " \o X2(n(1), n(2)) \o (IF k = "2pair" THEN " (2-pair)" ELSE " (sparse)"), <<P("n_interacting", m), P("strength", l)>>,
               n(1), n(2), PairMI(m.q[1], SparseCorr(l.q)), Elliptical("normal", SparseMatrix(n(1), n(2), m.q[1], l.q), "none"))
    [] k = "lvm" -> \* dx dy k alpha lambd beta eta
         LET cov == TLCEval(LVMCov(n(1), n(2), n(3), q(4), q(5), q(6), q(7)))
         IN  Task("multinormal-lvm-" \o D2(n(1), n(2)) \o "-" \o s(3) \o "-" \o Decimals(q(4), 5) \o "-" \o Decimals(q(5), 5) \o "-" \o Decimals(q(6), 5) \o "-" \o Decimals(q(7), 5),
               "Multinormal " \o X2(n(1), n(2)) \o " (LVM)",
               <<P("dim_x", a[1]), P("dim_y", a[2]), P("n_interacting", a[3]), P("alpha", a[4]), P("lambd", a[5]), P("epsilon_x", N("1.0", 1, 1)), P("epsilon_y", N("1.0", 1, 1)),
                 P("beta_x", a[6]), P("beta_y", a[6]), P("eta_x", a[7]), P("eta_y", a[7])>>,
               n(1), n(2), DetMI(n(1), n(2), cov), Elliptical("lvm", cov, "none"))
    [] k = "st-identity" -> Student(n(1), n(2), a[3], DenseCov(n(1) + n(2), <<0, 1>>), <<>>, "student-identity-" \o D2(n(1), n(2)) \o "-" \o s(3),
         "Student-t " \o X2(n(1), n(2)) \o " (dof=" \o s(3) \o ")", <<>>)
    [] k = "st-dense" -> Student(n(1), n(2), a[3], DenseCov(n(1) + n(2), q(4)), DenseMI(n(1), n(2), q(4)), "student-dense-" \o D2(n(1), n(2)) \o "-" \o s(3) \o "-" \o s(4),
         "Student-t " \o X2(n(1), n(2)) \o " (dof=" \o s(3) \o ", dense)", <<P("off_diag", a[4]), <<"dispersion", "matrix">>>>)
    [] k \in {"st-sparse", "st-2pair"} ->
         LET m == IF k = "st-2pair" THEN I(2) ELSE a[4]
             l == IF k = "st-2pair" THEN a[4] ELSE a[5]
         IN  Student(n(1), n(2), a[3], SparseMatrix(n(1), n(2), m.q[1], l.q), PairMI(m.q[1], SparseCorr(l.q)),
               "student-sparse-" \o D2(n(1), n(2)) \o "-" \o s(3) \o "-" \o m.s \o "-" \o l.s,
               "Student-t " \o X2(n(1), n(2)) \o " (dof=" \o s(3) \o (IF k = "st-2pair" THEN ", 2-pair)" ELSE ", sparse)"), <<P("n_interacting", m), P("strength", l)>>)
    [] k = "inliers" -> Task("mult-sparse-w-inliers-" \o D2(n(1), n(2)) \o "-" \o s(3) \o "-" \o s(4) \o "-" \o s(5),
         "Multinormal " \o X2(n(1), n(2)) \o " (sparse, " \o Percent(q(5)) \o " inliers)", <<P("n_interacting", a[3]), P("strength", a[4]), P("inlier_fraction", a[5])>>,
         n(1), n(2), <<>>, Mix(InlierComps(n(1), n(2), n(3), q(4), q(5))))

(*------------------------------ transforms ------------------------------*)
(* [t |-> which, name |-> given name or "", arg |-> number, flag]           *)
Given == "Given name"
TransformNames == {"normal_cdf", "half_cube", "asinh", "wiggly", "swissroll", "spiral", "rotate", "power", "rescale", "uniformise", "gaussianise"}
Applicable(tr, t) ==
  CASE tr = "swissroll" -> t.dx = 1
    [] tr = "spiral" -> t.dx > 1 /\ t.dy > 2
    [] tr = "rotate" -> t.dx > 2 /\ t.dy > 2
    [] OTHER -> TRUE
TrArgs(tr) ==
  CASE tr = "spiral" -> Speeds [] tr = "power" -> Alphas [] tr \in {"uniformise", "gaussianise"} -> { I(100), I(3), I(5) } [] OTHER -> { ZeroN }
TrFlags(tr) == IF tr = "spiral" THEN {TRUE, FALSE} ELSE {TRUE}
TrNames(tr) == IF tr = "swissroll" THEN {Given} ELSE {"", Given}
TrIds(tr) == IF tr = "rescale" THEN {"", "given-id"} ELSE {""}
Prefix(tr, a) ==
  CASE tr = "swissroll" -> "swissroll_x-"
    [] tr = "power" -> "power_" \o Decimals(a.q, 5) \o "-"
    [] OTHER -> tr \o "-"
Label(tr, a) ==
  CASE tr = "normal_cdf" -> "Normal CDF" [] tr = "half_cube" -> "Half-cube" [] tr = "asinh" -> "Asinh" [] tr = "wiggly" -> "Wiggly" [] tr = "spiral" -> "Spiral"
    [] tr = "rotate" -> "Rotate" [] tr = "power" -> "Power " \o Decimals(a.q, 2) [] tr = "rescale" -> "Rescale" [] tr = "uniformise" -> "Uniformise"
    [] tr = "gaussianise" -> "Gaussianise" [] OTHER -> ""
(* a later value of a parameter replaces an earlier one *)
Override(ps, new) == SelectSeq(ps, LAMBDA p : ~\E e \in ToSet(new) : e[1] = p[1]) \o new
Bool(b) == IF b THEN "True" ELSE "False"
(* power keeps the float of its argument *)
AsFloat(a) == IF a.s = ToString(a.q[1]) THEN a.s \o ".0" ELSE a.s
Own(tr, a, flag) ==
  CASE tr = "spiral" -> << <<"speed", a.s>>, <<"normalize_speed", Bool(flag)>> >>
    [] tr = "power" -> << <<"alpha", AsFloat(a)>> >>
    [] tr \in {"uniformise", "gaussianise"} -> << <<"n_quantiles", a.s>> >>
    [] OTHER -> <<>>
Transform(t, tr, a, flag, name, id) ==
  [t EXCEPT !.id = IF id # "" THEN id ELSE Prefix(tr, a) \o t.id,
            !.name = IF name # "" THEN name ELSE Label(tr, a) \o " @ " \o t.name,
            !.params = Override(t.params, Own(tr, a, flag)),
            !.dx = IF tr = "swissroll" THEN t.dx + 1 ELSE t.dx]
(* the generator coefficients of the rotation: <<coefficient, i, j>>        *)
RotX == << <<2, 0, 1>>, <<-1, 1, 2>>, <<-1, 0, 2>> >>
RotY == << <<1, 0, 1>>, <<2, 1, 2>> >>
MapOf(t, tr, a, flag) ==
  [t |-> tr, arg |-> a,
   speedx |-> IF tr = "spiral" THEN (IF flag THEN QDiv(a.q, QI(t.dx)) ELSE a.q) ELSE <<0, 1>>,
   speedy |-> IF tr = "spiral" THEN (IF flag THEN QDiv(a.q, QI(t.dy)) ELSE a.q) ELSE <<0, 1>>,
   genx |-> IF tr = "spiral" THEN << <<1, 0, 1>> >> ELSE IF tr = "rotate" THEN RotX ELSE <<>>,
   geny |-> IF tr = "spiral" THEN << <<1, 1, 2>> >> ELSE IF tr = "rotate" THEN RotY ELSE <<>>]

(*------------------------------ behaviours ------------------------------*)
Init == kind = "" /\ args = <<>> /\ chain = <<>> /\ phase = "kind"
PickKind == phase = "kind" /\ \E k \in Kinds : kind' = k /\ phase' = "args" /\ UNCHANGED <<args, chain>>
PickArg == /\ phase = "args" /\ Len(args) < NArgs(kind)
           /\ \E v \in ArgSet(kind, Len(args) + 1, args) : args' = Append(args, v)
           /\ UNCHANGED <<kind, chain, phase>>
Make == /\ phase = "args" /\ Len(args) = NArgs(kind)
        /\ chain' = << [task |-> Construct(kind, args), tr |-> <<>>, call |-> <<>>] >>
        /\ phase' = "chain" /\ UNCHANGED <<kind, args>>
Top == chain[Len(chain)].task
Apply == /\ phase = "chain" /\ Len(chain) <= MaxChain
         /\ \E tr \in TransformNames : Applicable(tr, Top) /\
              \E a \in TrArgs(tr), flag \in TrFlags(tr), name \in TrNames(tr), id \in TrIds(tr) :
                chain' = Append(chain, [task |-> Transform(Top, tr, a, flag, name, id), tr |-> <<MapOf(Top, tr, a, flag)>>,
                                        call |-> << [t |-> tr, a |-> a.s, flag |-> flag, name |-> name, id |-> id] >>])
         /\ UNCHANGED <<kind, args, phase>>
Stop == phase = "chain" /\ phase' = "done" /\ UNCHANGED <<kind, args, chain>>
StopLong == phase = "chain" /\ Len(chain) > MaxChain /\ phase' = "done" /\ UNCHANGED <<kind, args, chain>>
Next == PickKind \/ PickArg \/ Make \/ Apply \/ Stop
NextLong == PickKind \/ PickArg \/ Make \/ Apply \/ StopLong
Spec == Init /\ [][Next]_vars

(* given constructors, arguments and transforms (the shipped lists)         *)
DefaultArg(tr) == IF tr = "spiral" THEN N("1.0", 1, 1) ELSE IF tr \in {"uniformise", "gaussianise"} THEN I(100) ELSE ZeroN
Step(c, tr) ==
  LET t == c[Len(c)].task
      a == DefaultArg(tr)
      name == IF tr = "swissroll" THEN Given ELSE ""
  IN  Append(c, [task |-> Transform(t, tr, a, TRUE, name, ""), tr |-> <<MapOf(t, tr, a, TRUE)>>,
                 call |-> << [t |-> tr, a |-> a.s, flag |-> TRUE, name |-> name, id |-> ""] >>])
InitFixed == \E i \in DOMAIN Programs :
  /\ kind = Programs[i].k /\ args = Programs[i].a /\ phase = "done"
  /\ chain = FoldLeft(Step, << [task |-> Construct(Programs[i].k, Programs[i].a), tr |-> <<>>, call |-> <<>>] >>, Programs[i].t)
NextFixed == UNCHANGED vars

(*------------------------------ properties ------------------------------*)
(* transforms keep the mutual information and the parameters of the base    *)
Own1(tr) == {"speed", "normalize_speed", "alpha", "n_quantiles"}
KeepsMI == \A i \in 2..Len(chain) : chain[i].task.mi = chain[1].task.mi /\ chain[i].task.st = chain[1].task.st
KeepsParams == \A i \in 2..Len(chain) : \A p \in ToSet(chain[1].task.params) :
                  p \in ToSet(chain[i].task.params) \/ p[1] \in Own1(0)
UniqueParams == \A i \in DOMAIN chain : \A j, k \in DOMAIN chain[i].task.params :
                  j # k => chain[i].task.params[j][1] # chain[i].task.params[k][1]
(* the closed forms of the dense and the sparse scheme are those of their determinants *)
RECURSIVE ProdLog(_)
ProdLog(ts) == IF ts = <<>> THEN <<1, 1>>
               ELSE LET c == QMul(QI(2), Head(ts).c) \* the exponents are multiples of 1/2
                    IN  QMul(IF c[1] >= 0 THEN QPow(Head(ts).a, c[1]) ELSE QPow(QInv(Head(ts).a), -c[1]), ProdLog(Tail(ts)))
IntOK(m) == \A i, j \in DOMAIN m : m[i][j][2] \in {1, 2, 4}
ClosedForms == phase = "chain" /\ Len(chain) = 1 /\ kind \in {"dense", "sparse", "2pair", "lvm"} /\ args[1].q[1] + args[2].q[1] <= 4
               => LET m == IF kind = "2pair" THEN 2 ELSE args[3].q[1]
                      l == args[Len(args)].q
                      cov == TLCEval(IF kind \in {"sparse", "2pair"} THEN LVMCov(Top.dx, Top.dy, m, <<0, 1>>, l, <<0, 1>>, l) ELSE Top.law.cov)
                  IN  IntOK(cov) => QCmp(ProdLog(Top.mi), ProdLog(DetMI(Top.dx, Top.dy, cov))) = 0
Emit == phase = "done" => PrintT("@@" \o ToJson([kind |-> kind, args |-> [i \in DOMAIN args |-> args[i].s], chain |-> chain]))
=============================================================================
