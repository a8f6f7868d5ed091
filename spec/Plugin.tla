------------------------------- MODULE Plugin -------------------------------
(***************************************************************************)
(* Plug-in estimators on integer data sets: histogram, kernel densities,   *)
(* canonical correlations.  The data set is built one coordinate at a      *)
(* time; Finish computes, exactly,                                         *)
(*   hist: the joint cells <<count, x-marginal, y-marginal>>, whose        *)
(*         estimate is sum (c/n) log(c n / (cx cy));                       *)
(*   kde:  for the X, Y and joint space and every point, the squared       *)
(*         distances to all points, the number of points inside the        *)
(*         bandwidth (tophat) and the sum of 1 - d^2/h^2 (epanechnikov);   *)
(*   cca:  n^2 times the empirical covariance matrix, whose estimate is    *)
(*         1/2 log(det Sx det Sy / det Sxy).                               *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS Kind, Ns, DimPairs, Coord, BinPairs, H2s, Mults
VARIABLES cfg, flat, phase, out
vars == <<cfg, flat, phase, out>>
D == cfg.dx + cfg.dy
Total == cfg.n * D
I == 1..cfg.n
V(i, c) == flat[(i - 1) * D + c]
XCols == 1..cfg.dx
YCols == (cfg.dx + 1)..D
Col(c) == [i \in I |-> V(i, c)]
MinOf(c) == Min({V(i, c) : i \in I})
MaxOf(c) == Max({V(i, c) : i \in I})
(* n^2 times the covariance of two columns *)
Cov(a, b) == cfg.n * SumSeq([i \in I |-> V(i, a) * V(i, b)]) - SumSeq(Col(a)) * SumSeq(Col(b))

(*------------------------------ histogram -------------------------------*)
NBins(c) == IF c <= cfg.dx THEN cfg.p[1] ELSE cfg.p[2]
Bin(i, c) == LET lo == MinOf(c) hi == MaxOf(c) IN
   IF lo = hi THEN 0 ELSE MinI(((V(i, c) - lo) * NBins(c)) \div (hi - lo), NBins(c) - 1)
(* a coordinate exactly on an inner bin edge: rounding of the edge decides *)
OnEdge(c) == LET lo == MinOf(c) hi == MaxOf(c) IN
   lo # hi /\ \E i \in I : V(i, c) # lo /\ V(i, c) # hi /\ ((V(i, c) - lo) * NBins(c)) % (hi - lo) = 0
(* the first row stands for cfg.m equal rows *)
Weight(S) == Cardinality(S) + (IF 1 \in S THEN cfg.m - 1 ELSE 0)
Hist ==
  LET b == TLCEval([i \in I |-> [c \in 1..D |-> Bin(i, c)]])
      bx == TLCEval([i \in I |-> SubSeq(b[i], 1, cfg.dx)])
      by == TLCEval([i \in I |-> SubSeq(b[i], cfg.dx + 1, D)])
      cells == {b[i] : i \in I}
  IN [cells |-> SetToSeq({<<z, Weight({i \in I : b[i] = z}),
                            Weight({i \in I : bx[i] = SubSeq(z, 1, cfg.dx)}),
                            Weight({i \in I : by[i] = SubSeq(z, cfg.dx + 1, D)})>> : z \in cells}),
      edge |-> [c \in 1..D |-> OnEdge(c)],
      range |-> [c \in 1..D |-> MaxOf(c) - MinOf(c)]]

(*---------------------------- kernel densities --------------------------*)
(* squared bandwidth h2 = p[1]/p[2] *)
Dist2(i, j, cols) == FoldSet(LAMBDA c, acc : acc + (V(i, c) - V(j, c)) * (V(i, c) - V(j, c)), 0, cols)
Space(cols, h2) ==
  LET d == TLCEval([i \in I |-> TLCEval([j \in I |-> Dist2(i, j, cols)])])
  IN [d2 |-> d,
      tophat |-> [i \in I |-> Cardinality({j \in I : QLess(<<d[i][j], 1>>, h2)})],
      epan |-> [i \in I |-> QSum([j \in I |-> IF QLess(<<d[i][j], 1>>, h2)
                                              THEN QSub(<<1, 1>>, QDiv(<<d[i][j], 1>>, h2)) ELSE <<0, 1>>])]]
Kde == [x |-> Space(XCols, cfg.p), y |-> Space(YCols, cfg.p), xy |-> Space(1..D, cfg.p),
        var |-> [c \in 1..D |-> Cov(c, c)]]

(*------------------------- canonical correlations -----------------------*)
Cca == [cov |-> [a \in 1..D |-> [b \in 1..D |-> Cov(a, b)]]]
(* for single columns: 1/2 log(a/b) with these integers *)
Ratio == IF D = 2 THEN <<Cov(1, 1) * Cov(2, 2), Cov(1, 1) * Cov(2, 2) - Cov(1, 2) * Cov(1, 2)>> ELSE <<0, 0>>

Init == /\ \E n \in Ns, d \in DimPairs, p \in (CASE Kind = "hist" -> BinPairs [] Kind = "kde" -> H2s [] OTHER -> {<<1, 1>>}) :
             \E m \in (IF Kind = "hist" THEN Mults ELSE {1}) : cfg = [n |-> n, dx |-> d[1], dy |-> d[2], p |-> p, m |-> m]
        /\ flat = <<>> /\ phase = "data" /\ out = <<>>
AddCoord == /\ phase = "data" /\ Len(flat) < Total
            /\ \E c \in Coord : flat' = Append(flat, c)
            /\ UNCHANGED <<cfg, phase, out>>
Finish == /\ phase = "data" /\ Len(flat) = Total
          /\ out' = CASE Kind = "hist" -> Hist [] Kind = "kde" -> Kde [] Kind = "cca" -> [cov |-> Cca.cov, ratio |-> Ratio]
          /\ phase' = "done" /\ UNCHANGED <<cfg, flat>>
Next == AddCoord \/ Finish
Spec == Init /\ [][Next]_vars
(*------------------------------ consequences ----------------------------*)
Laws == phase = "done" =>
  CASE Kind = "hist" ->
         /\ SumSeq([k \in 1..Len(out.cells) |-> out.cells[k][2]]) = cfg.n + cfg.m - 1
         /\ \A k \in 1..Len(out.cells) : out.cells[k][2] <= MinI(out.cells[k][3], out.cells[k][4])
    [] Kind = "kde" ->
         \* every point is inside its own kernel; the joint kernel sees no more points
         /\ \A i \in I : out.xy.tophat[i] >= 1 /\ out.xy.tophat[i] <= MinI(out.x.tophat[i], out.y.tophat[i])
         /\ \A i \in I : QLeq(<<1, 1>>, out.xy.epan[i]) /\ QLeq(out.xy.epan[i], <<out.xy.tophat[i], 1>>)
    [] OTHER -> IsSymmetric(out.cov) /\ (D = 2 => out.ratio[2] >= 0)
Emit == phase = "done" => PrintT("@@" \o ToJson([cfg |-> cfg, flat |-> flat, out |-> out]))
=============================================================================
