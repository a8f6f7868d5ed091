-------------------------------- MODULE KSG --------------------------------
(***************************************************************************)
(* The KSG-1 estimator on integer data sets, computed exactly.             *)
(*                                                                         *)
(* A behaviour chooses a configuration, adds the coordinates of the points *)
(* one at a time (the data set is the state) and finishes.  All distances  *)
(* are kept squared (and, when standardising, multiplied by a common       *)
(* positive factor), so all comparisons are between integers.              *)
(***************************************************************************)
EXTENDS Num, Json

CONSTANTS Ns,        \* numbers of points
          DimPairs,  \* <<dim_x, dim_y>>
          Coord,     \* values of coordinates
          Metrics,   \* metric names
          Stds,      \* subset of BOOLEAN: standardise?
          Kmax       \* neighborhoods 1..Kmax are evaluated

VARIABLES cfg, flat, phase,
          out   \* the exact result, set by Finish
vars == <<cfg, flat, phase, out>>

(*---------------------------- the definition ----------------------------*)
Total == cfg.n * (cfg.dx + cfg.dy)
Pt(i) == SubSeq(flat, (i - 1) * (cfg.dx + cfg.dy) + 1, i * (cfg.dx + cfg.dy))
Col(c) == [i \in 1..cfg.n |-> Pt(i)[c]]
XCols == 1..cfg.dx
YCols == (cfg.dx + 1)..(cfg.dx + cfg.dy)
(* n^2 times the variance of column c *)
Var(c) == cfg.n * SumSeq([i \in 1..cfg.n |-> Col(c)[i] * Col(c)[i]]) - SumSeq(Col(c)) * SumSeq(Col(c))
(* squared distance is  sum_c w_c d_c^2  with integer weights w_c          *)
W(c) == IF cfg.std
        THEN FoldSet(LAMBDA e, acc : acc * Var(e), 1, (XCols \cup YCols) \ {c})
        ELSE 1
Dist2(i, j, cols, metric, w) ==
    LET d(c) == Abs(Pt(i)[c] - Pt(j)[c])
    IN CASE metric = "euclidean" -> FoldSet(LAMBDA c, acc : acc + w[c] * d(c) * d(c), 0, cols)
         [] metric = "chebyshev" -> FoldSet(LAMBDA c, acc : MaxI(acc, w[c] * d(c) * d(c)), 0, cols)
         [] metric = "manhattan" -> LET m == FoldSet(LAMBDA c, acc : acc + d(c), 0, cols)
                                    IN  w[CHOOSE c \in cols : TRUE] * m * m

(* smallest value such that at least k of the other points are that close  *)
Kth(i, D, k) == LET ds == {D[i][j] : j \in (1..cfg.n) \ {i}}
                IN Min({v \in ds : Cardinality({j \in (1..cfg.n) \ {i} : D[i][j] <= v}) >= k})
Closer(i, DD, r) == Cardinality({j \in (1..cfg.n) \ {i} : DD[i][j] < r})

Usable == /\ cfg.std => \A c \in XCols \cup YCols : Var(c) > 0
          /\ (cfg.std /\ cfg.dx > 1) => cfg.mx # "manhattan"
          /\ (cfg.std /\ cfg.dy > 1) => cfg.my # "manhattan"

(* TLCEval forces TLC to build each table once *)
Res == LET I == 1..cfg.n
           w == TLCEval([c \in XCols \cup YCols |-> W(c)])
           DX == TLCEval([i \in I |-> TLCEval([j \in I |-> Dist2(i, j, XCols, cfg.mx, w)])])
           DY == TLCEval([i \in I |-> TLCEval([j \in I |-> Dist2(i, j, YCols, cfg.my, w)])])
           DZ == TLCEval([i \in I |-> TLCEval([j \in I |-> MaxI(DX[i][j], DY[i][j])])])
           K == 1..MinI(Kmax, cfg.n - 1)
           R == TLCEval([k \in K |-> TLCEval([i \in I |-> Kth(i, DZ, k)])])
       IN TLCEval([
           nx |-> TLCEval([k \in K |-> TLCEval([i \in I |-> Closer(i, DX, R[k][i])])]),
           ny |-> TLCEval([k \in K |-> TLCEval([i \in I |-> Closer(i, DY, R[k][i])])]),
           \* no more than k copies of a point
           pos |-> TLCEval([k \in K |-> Bool01(\A i \in I : R[k][i] > 0)]),
           \* no tie at the decisive radius (then rounding of standardised data is harmless)
           tiefree |-> TLCEval([k \in K |-> Bool01(\A i \in I :
                 Cardinality({j \in I \ {i} : DX[i][j] = R[k][i]})
                   + Cardinality({j \in I \ {i} : DY[i][j] = R[k][i]}) = 1)])])

(* psi(m+1) = H_m - gamma, and the gammas cancel *)
H(m) == FoldSet(LAMBDA a, acc : QAdd(acc, <<1, a>>), <<0, 1>>, 1..m)
Estimate(r, k) ==
    LET h == TLCEval([m \in 0..(cfg.n - 1) |-> H(m)])
        s == QSum([i \in 1..cfg.n |-> QAdd(h[r.nx[k][i]], h[r.ny[k][i]])])
    IN QMax(<<0, 1>>, QSub(QAdd(h[k - 1], h[cfg.n - 1]), QMul(<<1, cfg.n>>, s)))

Init == /\ \E n \in Ns, d \in DimPairs, mx \in Metrics, my \in Metrics, s \in Stds :
             cfg = [n |-> n, dx |-> d[1], dy |-> d[2], mx |-> mx, my |-> my, std |-> s]
        /\ flat = <<>>
        /\ phase = "data"
        /\ out = <<>>
AddCoord == /\ phase = "data" /\ Len(flat) < Total
            /\ \E c \in Coord : flat' = Append(flat, c)
            /\ UNCHANGED <<cfg, phase, out>>
Finish == /\ phase = "data" /\ Len(flat) = Total /\ Usable
          /\ out' = Res
          /\ phase' = "done"
          /\ UNCHANGED <<cfg, flat>>
Next == AddCoord \/ Finish
Spec == Init /\ [][Next]_vars


(*------------------------------ invariants ------------------------------*)
TypeOK == phase \in {"data", "done"} /\ Len(flat) <= Total
(* at most k - 1 points are strictly closer in both X and Y than the k-th neighbour *)
CountsOK == phase = "done" =>
    \A k \in DOMAIN out.nx : \A i \in 1..cfg.n :
        /\ out.nx[k][i] \in 0..(cfg.n - 1) /\ out.ny[k][i] \in 0..(cfg.n - 1)
        /\ out.nx[k][i] <= cfg.n - 1 /\ out.ny[k][i] <= cfg.n - 1
        /\ out.tiefree[k] = 1 => MinI(out.nx[k][i], out.ny[k][i]) >= k - 1
(* exactly rational for small n, between 0 and psi(n) + psi(k) + 2 gamma    *)
Exact == cfg.n <= 12
Est == IF Exact THEN TLCEval([k \in DOMAIN out.nx |-> Estimate(out, k)]) ELSE <<>>
Emit == phase = "done" =>
    LET est == Est
    IN /\ \A k \in DOMAIN est : QLeq(<<0, 1>>, est[k]) /\ QLeq(est[k], QAdd(H(cfg.n - 1), H(k - 1)))
       /\ PrintT("@@" \o ToJson([cfg |-> cfg, flat |-> flat, nx |-> out.nx, ny |-> out.ny,
                               pos |-> out.pos, tiefree |-> out.tiefree, est |-> est]))
=============================================================================
