----------------------------- MODULE Transforms -----------------------------
(***************************************************************************)
(* Maps applied to variables, at arguments where they are exact.           *)
(*  spiral:  commuting planes (a_k, b_k) with integer speeds in units of   *)
(*           pi/2, so that the rotation of the integer vector x in plane k *)
(*           is speed_k * |x|^2 quarter turns; then the matrix `initial`.  *)
(*  gen:     canonical so(n) generators.      skew: skew-symmetric parts.  *)
(*  cube:    half-cube at +-m^2.              roll: Swiss roll at k/6.     *)
(*  inv:     inverse of piecewise linear strictly increasing functions.    *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS Kinds, MaxN, Coord, MaxSpeed
VARIABLES cfg, flat, phase, out
vars == <<cfg, flat, phase, out>>

(*------------------------------- spiral ---------------------------------*)
Norm2(x) == SumSeq([i \in 1..Len(x) |-> x[i] * x[i]])
(* generator A with A[i][j] = -1, A[j][i] = 1: exp(t A) rotates e_i to e_j *)
Quarter(x, i, j, q) ==
   LET r == q % 4 IN
   [x EXCEPT ![i] = CASE r = 0 -> x[i] [] r = 1 -> -x[j] [] r = 2 -> -x[i] [] r = 3 -> x[j],
             ![j] = CASE r = 0 -> x[j] [] r = 1 -> x[i] [] r = 2 -> -x[j] [] r = 3 -> -x[i]]
RECURSIVE Turns(_, _, _)
Turns(x, planes, r) == IF planes = <<>> THEN x
   ELSE LET p == Head(planes) IN Turns(Quarter(x, p[1], p[2], p[3] * r), Tail(planes), r)
SpiralPoint == SubSeq(flat, 1, cfg.n)
SpiralInit == IF cfg.init THEN [i \in 1..cfg.n |-> [j \in 1..cfg.n |-> flat[cfg.n + (i - 1) * cfg.n + j]]] ELSE <<>>
Rotated == Turns(SpiralPoint, cfg.planes, Norm2(SpiralPoint))
SpiralOut == [x |-> SpiralPoint, initial |-> SpiralInit, norm2 |-> Norm2(SpiralPoint),
              y |-> IF cfg.init THEN MatVec(SpiralInit, Rotated) ELSE Rotated]

(*------------------------------ matrices --------------------------------*)
GenOk == cfg.n >= 2 /\ 0 <= cfg.i /\ cfg.i < cfg.j /\ cfg.j < cfg.n
GenOut == IF GenOk THEN [r \in 1..cfg.n |-> [c \in 1..cfg.n |->
             IF r = cfg.i + 1 /\ c = cfg.j + 1 THEN -1 ELSE IF r = cfg.j + 1 /\ c = cfg.i + 1 THEN 1 ELSE 0]] ELSE <<>>
SkewIn == [r \in 1..cfg.n |-> [c \in 1..cfg.n |-> flat[(r - 1) * cfg.n + c]]]
Skew2 == [r \in 1..cfg.n |-> [c \in 1..cfg.n |-> SkewIn[r][c] - SkewIn[c][r]]]   \* twice the skew part

(*---------------------- inverses of monotone functions ------------------*)
(* breakpoints x_1 < x_2 < ..., values y_1 < y_2 < ... (gaps in flat)      *)
Cum(s, start) == [i \in 1..(Len(s) + 1) |-> start + SumSeq(SubSeq(s, 1, i - 1))]
PX == Cum(SubSeq(flat, 1, cfg.n), cfg.x0)
PY == Cum(SubSeq(flat, cfg.n + 1, 2 * cfg.n), cfg.y0)
F(x) == LET k == CHOOSE k \in 1..cfg.n : QLeq(<<PX[k], 1>>, x) /\ QLeq(x, <<PX[k + 1], 1>>)
        IN QAdd(<<PY[k], 1>>, QMul(Q(PY[k + 1] - PY[k], PX[k + 1] - PX[k]), QSub(x, <<PX[k], 1>>)))
PLInverse(y) ==
   IF QLeq(y, <<PY[1], 1>>) THEN <<PX[1], 1>>
   ELSE IF QLeq(<<PY[cfg.n + 1], 1>>, y) THEN <<PX[cfg.n + 1], 1>>
   ELSE LET k == CHOOSE k \in 1..cfg.n : QLeq(<<PY[k], 1>>, y) /\ QLess(y, <<PY[k + 1], 1>>)
        IN QAdd(<<PX[k], 1>>, QMul(Q(PX[k + 1] - PX[k], PY[k + 1] - PY[k]), QSub(y, <<PY[k], 1>>)))
Queries == {Q(m, 4) : m \in (4 * PY[1] - 9)..(4 * PY[cfg.n + 1] + 9)}
InvOut == [bx |-> PX, by |-> PY, inv |-> SetToSeq({<<y, PLInverse(y)>> : y \in Queries})]

Need == CASE cfg.kind = "spiral" -> cfg.n + (IF cfg.init THEN cfg.n * cfg.n ELSE 0)
          [] cfg.kind = "skew" -> cfg.n * cfg.n
          [] cfg.kind = "inv" -> 2 * cfg.n
          [] OTHER -> 0
Speeds == (-MaxSpeed)..MaxSpeed
Configs(kind) ==
   CASE kind = "spiral" ->
          {[kind |-> kind, n |-> n, init |-> b, planes |-> <<<<i, j, s>>>>] :
              n \in 2..MaxN, b \in BOOLEAN, i \in 1..1, j \in 2..2, s \in Speeds}
          \cup {[kind |-> kind, n |-> n, init |-> b, planes |-> <<<<i, n, s>>>>] :
              n \in 3..MaxN, b \in BOOLEAN, i \in 1..2, s \in Speeds}
          \cup {[kind |-> kind, n |-> 4, init |-> b, planes |-> <<<<1, 3, s>>, <<2, 4, t>>>>] : b \in BOOLEAN, s \in Speeds, t \in Speeds}
     [] kind = "gen" -> {[kind |-> kind, n |-> n, i |-> i, j |-> j] : n \in 0..MaxN, i \in -2..MaxN, j \in -2..(MaxN + 1)}
     [] kind = "skew" -> {[kind |-> kind, n |-> n] : n \in 1..MaxN}
     [] kind = "cube" -> {[kind |-> kind, m |-> m] : m \in -30..30}
     [] kind = "roll" -> {[kind |-> kind, m |-> m] : m \in -6..18}
     [] kind = "inv" -> {[kind |-> kind, n |-> n, x0 |-> x0, y0 |-> y0] : n \in 1..3, x0 \in {-10, -3, 0, 2}, y0 \in {-7, 0, 1}}
Init == /\ \E kind \in Kinds : cfg \in Configs(kind)
        /\ flat = <<>> /\ phase = "data" /\ out = <<>>
Add == /\ phase = "data" /\ Len(flat) < Need
       /\ \E c \in Coord : /\ cfg.kind = "inv" => c >= 1
                           /\ flat' = Append(flat, c)
       /\ UNCHANGED <<cfg, phase, out>>
Sign(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Finish == /\ phase = "data" /\ Len(flat) = Need
          /\ out' = CASE cfg.kind = "spiral" -> SpiralOut
                      [] cfg.kind = "gen" -> [ok |-> GenOk, a |-> GenOut]
                      [] cfg.kind = "skew" -> [a |-> SkewIn, skew2 |-> Skew2]
                      [] cfg.kind = "cube" -> [x |-> Sign(cfg.m) * cfg.m * cfg.m, y |-> cfg.m * cfg.m * cfg.m]
                      [] cfg.kind = "roll" -> \* x = m/6, t = (3 + m) quarter turns, result t (cos t, sin t)/21
                            LET q == (3 + cfg.m) % 4 IN
                            [t |-> 3 + cfg.m, cos |-> CASE q = 0 -> 1 [] q = 2 -> -1 [] OTHER -> 0,
                             sin |-> CASE q = 1 -> 1 [] q = 3 -> -1 [] OTHER -> 0]
                      [] cfg.kind = "inv" -> InvOut
          /\ phase' = "done" /\ UNCHANGED <<cfg, flat>>
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars
(*------------------------------ consequences ----------------------------*)
Laws == phase = "done" =>
   CASE cfg.kind = "spiral" ->
          /\ Norm2(Rotated) = out.norm2
          \* invertible: turning back gives the point again (the norm is the same)
          /\ Turns(Rotated, [k \in 1..Len(cfg.planes) |-> <<cfg.planes[k][1], cfg.planes[k][2], -cfg.planes[k][3]>>], out.norm2) = out.x
     [] cfg.kind = "gen" -> out.ok => \A r, c \in 1..cfg.n : out.a[r][c] = -out.a[c][r]
     [] cfg.kind = "skew" -> \A r, c \in 1..cfg.n : out.skew2[r][c] = -out.skew2[c][r]
     [] cfg.kind = "inv" ->
          /\ \A k \in 1..Len(out.inv) : LET y == out.inv[k][1] x == out.inv[k][2] IN
               (QLeq(<<PY[1], 1>>, y) /\ QLeq(y, <<PY[cfg.n + 1], 1>>)) => F(x) = y
     [] OTHER -> TRUE
Emit == phase = "done" => PrintT("@@" \o ToJson([cfg |-> cfg, out |-> out]))
=============================================================================
