---------------------------- MODULE Correlation ----------------------------
(* The bivariate normal sampler: parameters are drawn one at a time; the    *)
(* exact answer is 1/2 log(q^2 / (q^2 - p^2)) for correlation p/q, whatever *)
(* the scales and locations; the covariance has the documented entries.     *)
EXTENDS Num, Json
CONSTANTS Dens, Stds, Means
VARIABLES p, q, sx, sy, mx, my, at
vars == <<p, q, sx, sy, mx, my, at>>
Init == p = 0 /\ q = 1 /\ sx = <<1, 1>> /\ sy = <<1, 1>> /\ mx = 0 /\ my = 0 /\ at = 0
SetCorr == at = 0 /\ \E d \in Dens : q' = d /\ p' \in {-d - 1, -d, 1 - d, -(d \div 2), 0, d \div 3, (d + 1) \div 2, d - 1, d, d + 3}
           /\ at' = 1 /\ UNCHANGED <<sx, sy, mx, my>>
SetX == at = 1 /\ sx' \in Stds /\ mx' \in Means /\ at' = 2 /\ UNCHANGED <<p, q, sy, my>>
SetY == at = 2 /\ sy' \in Stds /\ my' \in Means /\ at' = 3 /\ UNCHANGED <<p, q, sx, mx>>
Next == SetCorr \/ SetX \/ SetY
Spec == Init /\ [][Next]_vars
Ok == p \in (1 - q)..(q - 1) /\ QSgn(sx) = 1 /\ QSgn(sy) = 1
Ratio == Q(q * q, q * q - p * p)
Cov == <<<<QMul(sx, sx), QMul(Q(p, q), QMul(sx, sy))>>, <<QMul(Q(p, q), QMul(sx, sy)), QMul(sy, sy)>>>>
(* the same number from the determinants of the covariance *)
Agree == (at = 3 /\ Ok /\ q <= 20) =>
   LET dd == QSub(QMul(Cov[1][1], Cov[2][2]), QMul(Cov[1][2], Cov[2][1]))
   IN  QDiv(QMul(Cov[1][1], Cov[2][2]), dd) = Ratio
Emit == at = 3 => PrintT("@@" \o ToJson([p |-> p, q |-> q, sx |-> sx, sy |-> sy, mx |-> mx, my |-> my,
                      ok |-> Ok, ratio |-> IF Ok THEN Ratio ELSE <<1, 1>>]))
=============================================================================
