------------------------------ MODULE Compose ------------------------------
(***************************************************************************)
(* Samplers as expressions: leaves, independent concatenation of several   *)
(* samplers and pushforwards by a pair of maps.  A behaviour is a run of a *)
(* stack machine building one sampler.  For every intermediate sampler the *)
(* specification carries                                                   *)
(*   - its dimensions,                                                     *)
(*   - its mutual information, a sum of symbolic terms                     *)
(*     [c |-> <<p, q>>, f |-> "one" | "log", a |-> <<p, q>>],              *)
(*   - the exact mean and covariance of (X, Y)        (Mode = "real"),     *)
(*   - the exact sample, an integer matrix, when the leaves are scripted   *)
(*     samplers that return known values              (Mode = "stub").     *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS Mode, MaxLeaves, MaxOps, MaxDim, RowCounts,
          Wide  \* TRUE: first push all the leaves, then concatenate many of them at once

VARIABLES stack, n, leaves, ops, pick, phase
vars == <<stack, n, leaves, ops, pick, phase>>

(*------------------------------- symbolic MI ----------------------------*)
One(c) == [c |-> c, f |-> "one", a |-> <<1, 1>>]
Log(c, a) == [c |-> c, f |-> "log", a |-> a]

(*--------------------------------- leaves -------------------------------*)
QM(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> QI(m[i][j])]]
QV(v) == [i \in 1..Len(v) |-> QI(v[i])]
GaussLeaves == {
   [dx |-> 1, dy |-> 1, s |-> <<<<2, 1>>, <<1, 3>>>>, mu |-> <<0, 0>>],
   [dx |-> 1, dy |-> 1, s |-> <<<<5, -3>>, <<-3, 2>>>>, mu |-> <<1, -2>>],
   [dx |-> 2, dy |-> 1, s |-> <<<<2, 1, 1>>, <<1, 3, -1>>, <<1, -1, 4>>>>, mu |-> <<3, 0, -1>>],
   [dx |-> 1, dy |-> 2, s |-> <<<<4, 2, -1>>, <<2, 3, 0>>, <<-1, 0, 1>>>>, mu |-> <<0, 5, 0>>],
   [dx |-> 2, dy |-> 2, s |-> <<<<3, 1, 0, 2>>, <<1, 2, 1, 0>>, <<0, 1, 2, 0>>, <<2, 0, 0, 3>>>>, mu |-> <<0, 0, 1, 1>>] }
Sub(g, r) == SubMat(g.s, r, r)
GaussRatio(g) == QMul(Q(Det(Sub(g, Range1(1, g.dx))), Det(g.s)),
                      QI(Det(Sub(g, Range1(g.dx + 1, g.dx + g.dy)))))
Eps == { <<1, 10>>, <<1, 2>>, <<3, 4>>, <<2, 1>>, <<1, 100>>, <<9, 20>>, <<51, 100>>, <<11, 20>> }
Ms == 1..6
Ps == { <<0, 1>>, <<3, 20>>, <<1, 2>>, <<9, 10>> }
EpsMI(e) == IF QLess(<<1, 2>>, e) THEN << One(QDiv(<<1, 4>>, e)) >>
            ELSE << One(e), Log(<<-1, 1>>, QMul(<<2, 1>>, e)) >>
DiscMI(m) == << Log(<<1, 1>>, <<m, 1>>), Log(Q(1 - m, m), <<2, 1>>) >>
DiscVar(m) == Q(m * m - 1, 12)

RealLeaf(k) ==
  CASE k = "gauss" -> { [op |-> <<"gauss", g>>, dx |-> g.dx, dy |-> g.dy, mi |-> << Log(<<1, 2>>, GaussRatio(g)) >>,
                         mean |-> QV(g.mu), cov |-> QM(g.s)] : g \in GaussLeaves }
    [] k = "bmmgauss" -> { [op |-> <<"bmmgauss", g>>, dx |-> g.dx, dy |-> g.dy, mi |-> << Log(<<1, 2>>, GaussRatio(g)) >>,
                         mean |-> QV(g.mu), cov |-> QM(g.s)] : g \in GaussLeaves }
    [] k = "uniform" -> { [op |-> <<"uniform", e>>, dx |-> 1, dy |-> 1, mi |-> EpsMI(e),
                           mean |-> << <<1, 2>>, <<1, 2>> >>,
                           cov |-> << << <<1, 12>>, <<1, 12>> >>,
                                      << <<1, 12>>, QAdd(<<1, 12>>, QDiv(QMul(e, e), <<3, 1>>)) >> >>] : e \in Eps }
    [] k = "disc" -> { [op |-> <<"disc", m>>, dx |-> 1, dy |-> 1, mi |-> DiscMI(m),
                        mean |-> << Q(m - 1, 2), Q(m + 1, 2) >>,
                        cov |-> << << DiscVar(m), DiscVar(m) >>, << DiscVar(m), QAdd(DiscVar(m), <<1, 3>>) >> >>] : m \in Ms }
    [] k = "multidisc" -> { [op |-> <<"multidisc", ms>>, dx |-> 2, dy |-> 2, mi |-> DiscMI(ms[1]) \o DiscMI(ms[2]),
                        mean |-> << Q(ms[1] - 1, 2), Q(ms[2] - 1, 2), Q(ms[1] + 1, 2), Q(ms[2] + 1, 2) >>,
                        cov |-> [i \in 1..4 |-> [j \in 1..4 |->
                            IF i % 2 # j % 2 THEN <<0, 1>>
                            ELSE IF i = j /\ i > 2 THEN QAdd(DiscVar(ms[i - 2]), <<1, 3>>)
                            ELSE DiscVar(ms[2 - (i % 2)])]]] : ms \in {<<2, 5>>, <<4, 1>>, <<3, 3>>} }
    [] k = "zip" -> { [op |-> <<"zip", p>>, dx |-> 1, dy |-> 1,
                       mi |-> << One(QMul(QSub(<<1, 1>>, p), <<753, 2500>>)) >>,
                       mean |-> << <<1, 1>>, QSub(<<1, 1>>, p) >>,
                       cov |-> LET c == QSub(<<1, 1>>, p)
                               IN << << <<1, 1>>, c >>, << c, QSub(QMul(<<3, 1>>, c), QMul(c, c)) >> >>] : p \in Ps }
RealKinds == {"gauss", "bmmgauss", "uniform", "disc", "multidisc", "zip"}

(* scripted leaf number l: row i of X is <<100 l + 10 c + i>> and of Y its negative *)
StubX(l, d, rows) == [i \in 1..rows |-> [c \in 1..d |-> 100 * l + 10 * c + i]]
StubY(l, d, rows) == [i \in 1..rows |-> [c \in 1..d |-> -(100 * l + 10 * c + i)]]
StubLeaf(l, rows) == { [op |-> <<"stub", [id |-> l, dx |-> d, dy |-> e, mi |-> m]>>, dx |-> d, dy |-> e,
                        mi |-> << One(<<m, 4>>) >>, X |-> StubX(l, d, rows), Y |-> StubY(l, e, rows)] :
                        d \in 1..3, e \in 1..2, m \in {0, 3 * l} }

(*--------------------------------- maps ---------------------------------*)
(* point maps: v |-> A v + b with integer A, b                             *)
PointMaps == {"double", "negate", "shift", "reverse", "append", "repeat"}
ArrayMaps == {"minusfirst"}      \* only meaningful on whole arrays
AddDim(f) == CASE f = "append" -> 1 [] f = "repeat" -> 2 [] OTHER -> 0
Apply(f, v) ==
  CASE f = "none" -> v
    [] f = "double" -> [i \in DOMAIN v |-> 2 * v[i]]
    [] f = "negate" -> [i \in DOMAIN v |-> -v[i]]
    [] f = "shift" -> [i \in DOMAIN v |-> v[i] + i]
    [] f = "reverse" -> Reverse(v)
    [] f = "append" -> Append(v, SumSeq(v))
    [] f = "repeat" -> <<v[1]>> \o v \o <<v[Len(v)]>>
ApplyAll(f, m) == IF f = "minusfirst" THEN [i \in DOMAIN m |-> [c \in DOMAIN m[i] |-> m[i][c] - m[1][c]]]
                  ELSE [i \in DOMAIN m |-> Apply(f, m[i])]
(* the matrix of the linear part and the offset *)
Unit(d, j) == [i \in 1..d |-> IF i = j THEN 1 ELSE 0]
Zero(d) == [i \in 1..d |-> 0]
Offset(f, d) == Apply(f, Zero(d))
Lin(f, d) == LET o == Offset(f, d)
                 cols == [j \in 1..d |-> LET w == Apply(f, Unit(d, j)) IN [i \in 1..Len(w) |-> w[i] - o[i]]]
             IN  [i \in 1..Len(o) |-> [j \in 1..d |-> cols[j][i]]]
QDot(u, v) == QSum([i \in 1..Len(u) |-> QMul(u[i], v[i])])
QMatVec(a, v) == [i \in 1..Len(a) |-> QDot(a[i], v)]
QMatMul(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> QSum([k \in 1..Len(b) |-> QMul(a[i][k], b[k][j])])]]
BlockDiag(a, b, ra, ca) == \* ra x ca block a, then block b (integers)
  [i \in 1..(ra + Len(b)) |-> [j \in 1..(ca + Len(b[1])) |->
     IF i <= ra /\ j <= ca THEN a[i][j] ELSE IF i > ra /\ j > ca THEN b[i - ra][j - ca] ELSE 0]]

Transformed(s, f, g, vec) ==
  LET base == [op |-> <<"transform", f, g, vec, AddDim(f), AddDim(g)>>, dx |-> s.dx + AddDim(f), dy |-> s.dy + AddDim(g), mi |-> s.mi]
  IN  IF Mode = "stub"
      THEN base @@ [X |-> ApplyAll(f, s.X), Y |-> ApplyAll(g, s.Y)]
      ELSE LET A == TLCEval(QM(BlockDiag(Lin(f, s.dx), Lin(g, s.dy), s.dx + AddDim(f), s.dx)))
               o == QV(Offset(f, s.dx) \o Offset(g, s.dy))
               m == QMatVec(A, s.mean)
           IN  base @@ [mean |-> [i \in 1..Len(o) |-> QAdd(m[i], o[i])],
                        cov |-> TLCEval(QMatMul(TLCEval(QMatMul(A, s.cov)), Transpose(A)))]

(*----------------------------- concatenation ----------------------------*)
SumDx(ss) == SumSeq([i \in DOMAIN ss |-> ss[i].dx])
SumDy(ss) == SumSeq([i \in DOMAIN ss |-> ss[i].dy])
(* position of coordinate i of (X, Y): <<component, its coordinate in (X_k, Y_k)>> *)
RECURSIVE LocX(_, _, _), LocY(_, _, _)
LocX(ss, i, k) == IF i <= ss[k].dx THEN <<k, i>> ELSE LocX(ss, i - ss[k].dx, k + 1)
LocY(ss, i, k) == IF i <= ss[k].dy THEN <<k, ss[k].dx + i>> ELSE LocY(ss, i - ss[k].dy, k + 1)
Concatenated(ss) ==
  LET dx == SumDx(ss)
      dy == SumDy(ss)
      base == [op |-> <<"concat", Len(ss)>>, dx |-> dx, dy |-> dy, mi |-> FoldLeft(LAMBDA acc, s : acc \o s.mi, <<>>, ss)]
      loc == TLCEval([i \in 1..(dx + dy) |-> IF i <= dx THEN LocX(ss, i, 1) ELSE LocY(ss, i - dx, 1)])
  IN  IF Mode = "stub"
      THEN base @@ [X |-> [r \in 1..n |-> FoldLeft(LAMBDA acc, s : acc \o s.X[r], <<>>, ss)],
                    Y |-> [r \in 1..n |-> FoldLeft(LAMBDA acc, s : acc \o s.Y[r], <<>>, ss)]]
      ELSE base @@ [mean |-> [i \in 1..(dx + dy) |-> ss[loc[i][1]].mean[loc[i][2]]],
                    cov |-> TLCEval([i \in 1..(dx + dy) |-> [j \in 1..(dx + dy) |->
                       IF loc[i][1] = loc[j][1] THEN ss[loc[i][1]].cov[loc[i][2]][loc[j][2]] ELSE <<0, 1>>]])]

(*------------------------------ the machine -----------------------------*)
WithProg(node, prog) == [x \in (DOMAIN node) |-> node[x]] @@ [prog |-> Append(prog, node.op)]
Top == stack[Len(stack)]
Init == stack = <<>> /\ n \in RowCounts /\ leaves = 0 /\ ops = 0 /\ pick = <<>> /\ phase = "build"
Build == phase = "build" /\ ops < MaxOps
Choose(c) == pick' = Append(pick, c) /\ UNCHANGED <<stack, n, leaves, ops, phase>>
(* one step = pick the operation, pick its arguments one at a time, apply *)
PickOp == /\ Build /\ pick = <<>>
          /\ \/ leaves < MaxLeaves /\ (Wide \/ Len(stack) < 3) /\ Choose("leaf")
             \/ Len(stack) >= 1 /\ (Wide => leaves = MaxLeaves) /\ Choose("concat")
             \/ Len(stack) >= 1 /\ (Wide => leaves = MaxLeaves) /\ Choose("transform")
Push == /\ Build /\ pick = <<"leaf">>
        /\ \E s \in (IF Mode = "stub" THEN StubLeaf(leaves + 1, n) ELSE UNION {RealLeaf(k) : k \in RealKinds}) :
             stack' = Append(stack, WithProg(s, <<>>))
        /\ leaves' = leaves + 1 /\ ops' = ops + 1 /\ pick' = <<>> /\ UNCHANGED <<n, phase>>
Concat == /\ Build /\ pick = <<"concat">>
          /\ \E k \in (IF Wide THEN MaxI(1, Len(stack) - 2)..Len(stack) ELSE 1..Len(stack)) :
               LET ss == SubSeq(stack, Len(stack) - k + 1, Len(stack))
               IN  /\ SumDx(ss) <= MaxDim /\ SumDy(ss) <= MaxDim
                   /\ stack' = Append(SubSeq(stack, 1, Len(stack) - k),
                         WithProg(Concatenated(ss), FoldLeft(LAMBDA acc, s : acc \o s.prog, <<>>, ss)))
          /\ ops' = ops + 1 /\ pick' = <<>> /\ UNCHANGED <<n, leaves, phase>>
PickMap == /\ Build /\ pick # <<>> /\ pick[1] = "transform" /\ Len(pick) < 4
           /\ \/ Len(pick) = 1 /\ Choose(TRUE)
              \/ Len(pick) = 1 /\ Choose(FALSE)
              \/ /\ Len(pick) > 1
                 /\ \E f \in {"none"} \cup PointMaps \cup (IF pick[2] \/ Mode = "real" THEN {} ELSE ArrayMaps) : Choose(f)
Transform == /\ Build /\ Len(pick) = 4
             /\ Top.dx + AddDim(pick[3]) <= MaxDim /\ Top.dy + AddDim(pick[4]) <= MaxDim
             /\ stack' = [stack EXCEPT ![Len(stack)] = WithProg(Transformed(Top, pick[3], pick[4], pick[2]), Top.prog)]
             /\ ops' = ops + 1 /\ pick' = <<>> /\ UNCHANGED <<n, leaves, phase>>
GiveUp == /\ Build /\ Len(pick) = 4     \* too wide: forget the operation
          /\ ~(Top.dx + AddDim(pick[3]) <= MaxDim /\ Top.dy + AddDim(pick[4]) <= MaxDim)
          /\ pick' = <<>> /\ UNCHANGED <<stack, n, leaves, ops, phase>>
Finish == /\ phase = "build" /\ pick = <<>> /\ Len(stack) >= 1 /\ ops >= MaxOps
          /\ phase' = "done" /\ UNCHANGED <<stack, n, leaves, ops, pick>>
Next == PickOp \/ Push \/ Concat \/ PickMap \/ Transform \/ GiveUp \/ Finish
Spec == Init /\ [][Next]_vars

(*------------------------------ properties ------------------------------*)
ShapesOK == \A k \in DOMAIN stack :
   LET s == stack[k]
   IN  IF Mode = "stub"
       THEN /\ Len(s.X) = n /\ Len(s.Y) = n
            /\ \A i \in 1..n : Len(s.X[i]) = s.dx /\ Len(s.Y[i]) = s.dy
       ELSE /\ Len(s.mean) = s.dx + s.dy /\ Len(s.cov) = s.dx + s.dy
            /\ \A i, j \in 1..(s.dx + s.dy) : s.cov[i][j] = s.cov[j][i]
            /\ \A i \in 1..(s.dx + s.dy) : QSgn(s.cov[i][i]) >= 0
(* rows stay paired: with per-point maps only, swapping rows 1 and 2 of every leaf
   swaps rows 1 and 2 of the result – here: no row depends on another row       *)
Emit == phase = "done" =>
   \A k \in DOMAIN stack :
     PrintT("@@" \o ToJson([n |-> n, prog |-> stack[k].prog, dx |-> stack[k].dx, dy |-> stack[k].dy, mi |-> stack[k].mi,
        X |-> IF Mode = "stub" THEN stack[k].X ELSE <<>>, Y |-> IF Mode = "stub" THEN stack[k].Y ELSE <<>>,
        mean |-> IF Mode = "stub" THEN <<>> ELSE stack[k].mean, cov |-> IF Mode = "stub" THEN <<>> ELSE stack[k].cov]))
=============================================================================
