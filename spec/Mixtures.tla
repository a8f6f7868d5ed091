----------------------------- MODULE Mixtures -----------------------------
(***************************************************************************)
(* Bend-and-mix models over finitely many integer points.  A model carries *)
(*   J:  function  <<x, y>> -> [p, q]   (probability, density)             *)
(*   PX, PY: the same for the marginals, mi: known analytic value or none. *)
(* Probability and density differ only after maps with a Jacobian # 1: the *)
(* density at the image point is the density divided by |det|.             *)
(* A behaviour is a run of a stack machine: leaves are drawn by dropping   *)
(* balls into cells; then models are mixed, made independent, transformed. *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS MaxLeaves, MaxOps
VARIABLES stack, leaf, leaves, ops, pick, phase, out
vars == <<stack, leaf, leaves, ops, pick, phase, out>>

XPoints(d) == IF d = 1 THEN {<<i>> : i \in 0..2} ELSE {<<i, j>> : i \in 0..1, j \in 0..1}
Zero == [p |-> <<0, 1>>, q |-> <<0, 1>>]
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE Zero
Plus(a, b) == [p |-> QAdd(a.p, b.p), q |-> QAdd(a.q, b.q)]
Times(w, a) == [p |-> QMul(w, a.p), q |-> QMul(w, a.q)]
QSumSet(S, f) == FoldSet(LAMBDA k, acc : QAdd(f[k], acc), <<0, 1>>, S)
Same(q) == [p |-> q, q |-> q]

(*--------------------------------- leaves -------------------------------*)
Balls == 8
Count(cells, c) == Cardinality({k \in 1..Len(cells) : cells[k] = c})
LeafModel(l) ==
   LET sup == {l.cells[k] : k \in 1..Len(l.cells)}
       J == TLCEval([c \in sup |-> Q(Count(l.cells, c), Balls)])
       xs == {c[1] : c \in sup}
       ys == {c[2] : c \in sup}
       px == [x \in xs |-> QSumSet({c \in sup : c[1] = x}, J)]
       py == [y \in ys |-> QSumSet({c \in sup : c[2] = y}, J)]
   IN [op |-> <<"leaf", SetToSeq({<<c[1], c[2], J[c]>> : c \in sup})>>, dx |-> l.dx, dy |-> l.dy, mi |-> l.mi, unit |-> TRUE,
       J |-> TLCEval([c \in sup |-> Same(J[c])]), PX |-> TLCEval([x \in xs |-> Same(px[x])]), PY |-> TLCEval([y \in ys |-> Same(py[y])])]

(*------------------------------- operations -----------------------------*)
MixFn(fs, w) == LET dom == UNION {DOMAIN fs[k] : k \in 1..Len(fs)}
                IN TLCEval([c \in dom |-> FoldFunction(LAMBDA a, acc : Plus(a, acc), Zero, [k \in 1..Len(fs) |-> Times(w[k], At(fs[k], c))])])
Mix(ms, w) == [op |-> <<"mix", w, [k \in 1..Len(ms) |-> ms[k].op]>>, dx |-> ms[1].dx, dy |-> ms[1].dy, mi |-> <<>>,
               unit |-> \A k \in 1..Len(ms) : ms[k].unit,
               J |-> MixFn([k \in 1..Len(ms) |-> ms[k].J], w), PX |-> MixFn([k \in 1..Len(ms) |-> ms[k].PX], w),
               PY |-> MixFn([k \in 1..Len(ms) |-> ms[k].PY], w)]
Indep(a, b) == [op |-> <<"indep", a.op, b.op>>, dx |-> a.dx, dy |-> b.dy, mi |-> <<<<0, 1>>>>, unit |-> a.unit /\ b.unit,
                J |-> TLCEval([c \in (DOMAIN a.PX) \X (DOMAIN b.PY) |->
                       [p |-> QMul(a.PX[c[1]].p, b.PY[c[2]].p), q |-> QMul(a.PX[c[1]].q, b.PY[c[2]].q)]]),
                PX |-> a.PX, PY |-> b.PY]
Maps == {"id", "shift", "negate", "double", "reverse", "cumsum", "affine"}
Apply(f, x) == CASE f = "id" -> x
                 [] f = "shift" -> [i \in 1..Len(x) |-> x[i] + i]
                 [] f = "negate" -> [i \in 1..Len(x) |-> -x[i]]
                 [] f = "double" -> [i \in 1..Len(x) |-> 2 * x[i]]
                 [] f = "reverse" -> [i \in 1..Len(x) |-> x[Len(x) + 1 - i]]
                 [] f = "cumsum" -> [i \in 1..Len(x) |-> SumSeq(SubSeq(x, 1, i))]
                 [] f = "affine" -> [i \in 1..Len(x) |-> 4 * x[i] - 1]   \* scale by 4, then shift by -1
AbsDet(f, d) == CASE f = "double" -> Pow(2, d) [] f = "affine" -> Pow(4, d) [] OTHER -> 1
Inv(f, y) == CASE f = "id" -> y
               [] f = "shift" -> [i \in 1..Len(y) |-> y[i] - i]
               [] f = "negate" -> [i \in 1..Len(y) |-> -y[i]]
               [] f = "double" -> [i \in 1..Len(y) |-> y[i] \div 2]
               [] f = "reverse" -> Apply("reverse", y)
               [] f = "cumsum" -> [i \in 1..Len(y) |-> IF i = 1 THEN y[1] ELSE y[i] - y[i - 1]]
               [] f = "affine" -> [i \in 1..Len(y) |-> (y[i] + 1) \div 4]
Bend(m, f, g) ==
   LET dt(a, d) == [p |-> a.p, q |-> QDiv(a.q, <<d, 1>>)]
       df == AbsDet(f, m.dx)  dg == AbsDet(g, m.dy) IN
   [op |-> <<"bend", f, g, m.op>>, dx |-> m.dx, dy |-> m.dy, mi |-> m.mi, unit |-> m.unit /\ df * dg = 1,
    J |-> TLCEval([c \in {<<Apply(f, k[1]), Apply(g, k[2])>> : k \in DOMAIN m.J} |-> dt(m.J[<<Inv(f, c[1]), Inv(g, c[2])>>], df * dg)]),
    PX |-> TLCEval([x \in {Apply(f, k) : k \in DOMAIN m.PX} |-> dt(m.PX[Inv(f, x)], df)]),
    PY |-> TLCEval([y \in {Apply(g, k) : k \in DOMAIN m.PY} |-> dt(m.PY[Inv(g, y)], dg)])]

(*--------------------------------- machine ------------------------------*)
Proportions == {<< <<1, 1>> >>, << <<1, 2>>, <<1, 2>> >>, << <<1, 4>>, <<3, 4>> >>, << <<7, 8>>, <<1, 8>> >>,
                << <<1, 4>>, <<1, 4>>, <<1, 2>> >>, << <<5, 8>>, <<1, 8>>, <<1, 4>> >>}
Top(k) == [i \in 1..k |-> stack[Len(stack) - k + i]]
Drop(k) == SubSeq(stack, 1, Len(stack) - k)
SameDims(ms) == \A i, j \in 1..Len(ms) : ms[i].dx = ms[j].dx /\ ms[i].dy = ms[j].dy
Small(m) == /\ \A c \in DOMAIN m.J : m.J[c].q[2] < 1000000
            /\ Cardinality(DOMAIN m.J) <= 40
Init == stack = <<>> /\ leaf = <<>> /\ leaves = 0 /\ ops = 0 /\ pick = "new" /\ phase = "run" /\ out = <<>>
New == /\ pick = "new"
       /\ \E dx, dy \in {1, 2}, mi \in {<<>>, <<<<3, 4>>>>} :
             /\ dx + dy < 4
             /\ leaves > 0 => (dx = stack[1].dx /\ dy = stack[1].dy) \/ leaves = MaxLeaves - 1
             /\ leaf' = [dx |-> dx, dy |-> dy, mi |-> mi, cells |-> <<>>]
       /\ pick' = "ball" /\ UNCHANGED <<stack, leaves, ops, phase, out>>
Ball == /\ pick = "ball" /\ Len(leaf.cells) < Balls
        /\ \E x \in XPoints(leaf.dx), y \in XPoints(leaf.dy) : leaf' = [leaf EXCEPT !.cells = Append(@, <<x, y>>)]
        /\ UNCHANGED <<stack, leaves, ops, pick, phase, out>>
Push == /\ pick = "ball" /\ Len(leaf.cells) = Balls
        /\ stack' = Append(stack, LeafModel(leaf)) /\ leaf' = <<>> /\ leaves' = leaves + 1
        /\ pick' = "menu" /\ UNCHANGED <<ops, phase, out>>
Menu == /\ pick = "menu"
        /\ \E c \in {"new", "mix", "bend", "indep", "end"} :
             /\ c = "new" => leaves < MaxLeaves
             /\ c \in {"mix", "bend", "indep"} => ops < MaxOps
             /\ c = "indep" => Len(stack) >= 2
             /\ c = "end" => ops > 0
             /\ pick' = c
        /\ UNCHANGED <<stack, leaf, leaves, ops, phase, out>>
Result(k, m) == /\ Small(m) /\ stack' = Append(Drop(k), m) /\ ops' = ops + 1
                /\ pick' = "menu" /\ UNCHANGED <<leaf, leaves, phase, out>>
DoMix == pick = "mix" /\ \E w \in Proportions : Len(w) <= Len(stack) /\ SameDims(Top(Len(w))) /\ Result(Len(w), Mix(Top(Len(w)), w))
DoIndep == pick = "indep" /\ Result(2, Indep(Top(2)[1], Top(2)[2]))
DoBend == pick = "bend" /\ \E f, g \in Maps : Result(1, Bend(Top(1)[1], f, g))
Table(f) == SetToSeq({<<k, f[k].p, f[k].q>> : k \in DOMAIN f})
Finish == /\ pick = "end" /\ phase = "run"
          /\ out' = LET m == Top(1)[1] IN
                    [op |-> m.op, dx |-> m.dx, dy |-> m.dy, mi |-> m.mi, unit |-> m.unit, J |-> Table(m.J), PX |-> Table(m.PX), PY |-> Table(m.PY),
                     below |-> [i \in 1..(Len(stack) - 1) |-> [op |-> stack[i].op, dx |-> stack[i].dx, dy |-> stack[i].dy]]]
          /\ phase' = "done" /\ UNCHANGED <<stack, leaf, leaves, ops, pick>>
Next == phase = "run" /\ (New \/ Ball \/ Push \/ Menu \/ DoMix \/ DoIndep \/ DoBend \/ Finish)
Spec == Init /\ [][Next]_vars

(*------------------------------ consequences ----------------------------*)
ProbJ(m) == [c \in DOMAIN m.J |-> m.J[c].p]
Laws == phase = "done" => LET m == Top(1)[1] J == ProbJ(m) IN
   /\ QSumSet(DOMAIN J, J) = <<1, 1>>
   /\ \A x \in DOMAIN m.PX : QSumSet({c \in DOMAIN J : c[1] = x}, J) = m.PX[x].p     \* marginals of the joint law
   /\ \A y \in DOMAIN m.PY : QSumSet({c \in DOMAIN J : c[2] = y}, J) = m.PY[y].p
   /\ m.unit => \A c \in DOMAIN m.J : m.J[c].p = m.J[c].q
   /\ (Len(m.mi) = 1 /\ m.mi[1] = <<0, 1>>) => \A c \in DOMAIN m.J : m.J[c].q = QMul(m.PX[c[1]].q, m.PY[c[2]].q)
Emit == phase = "done" => PrintT("@@" \o ToJson(out))
=============================================================================
