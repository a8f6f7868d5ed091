------------------------------ MODULE Search ------------------------------
(***************************************************************************)
(* Solving f(x) = target for a strictly increasing f that may fail on a    *)
(* part of its domain, and the task generators built on it.                *)
(*                                                                         *)
(* f is piecewise linear with integer values at 0..cfg.n; positions are    *)
(* multiples of 2^-R (so F is an integer in units of 2^-R).  The searcher  *)
(* keeps a bracket, evaluates its middle, and after a failure any point    *)
(* of the domain.                                                          *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS Lengths, MaxSlope, R, WithHoles, MaxMi
VARIABLES phase, cfg, ys, lo, hi, mid, evals, out
vars == <<phase, cfg, ys, lo, hi, mid, evals, out>>

Unit == Pow(2, R)
W == cfg.n * Unit
F(p) == LET k == MinI(p \div Unit, cfg.n - 1) IN ys[k + 1] * Unit + (ys[k + 2] - ys[k + 1]) * (p - k * Unit)
Slope == Max({ys[k + 1] - ys[k] : k \in 1..cfg.n})
(* target and delta are in units of 1/4 *)
Target == cfg.target * (Unit \div 4)
Delta == cfg.delta * (Unit \div 4)
Near(p) == Abs(F(p) - Target) < Delta
InHole(p) == cfg.hole # <<>> /\ cfg.hole[1] * Unit <= p /\ p <= cfg.hole[2] * Unit
Solutions == {p \in 0..W : Near(p) /\ ~InHole(p)}
(* evaluations that always suffice without failures *)
Rate == CHOOSE k \in 0..30 : /\ Slope * W < 2 * Delta * Pow(2, k)
                             /\ (k = 0 \/ ~(Slope * W < 2 * Delta * Pow(2, k - 1)))
Attainable == ys[1] * 4 <= cfg.target /\ cfg.target <= 4 * ys[cfg.n + 1]

Init == /\ phase = "cfg" /\ cfg = <<>> /\ ys = <<>> /\ lo = 0 /\ hi = 0 /\ mid = 0 /\ evals = 0 /\ out = <<>>
Config == /\ phase = "cfg"
          /\ \E n \in Lengths, y0 \in {-7, 0, 2}, d \in {1, 2, 3} : cfg' = [n |-> n, y0 |-> y0, delta |-> d, target |-> 0, hole |-> <<>>] /\ ys' = <<y0>>
          /\ phase' = "values" /\ UNCHANGED <<lo, hi, mid, evals, out>>
Values == /\ phase = "values" /\ Len(ys) <= cfg.n
          /\ \E s \in 1..MaxSlope : ys' = Append(ys, ys[Len(ys)] + s)
          /\ UNCHANGED <<phase, cfg, lo, hi, mid, evals, out>>
Problem == /\ phase = "values" /\ Len(ys) = cfg.n + 1
           /\ \E t \in (4 * ys[1] - 5)..(4 * ys[cfg.n + 1] + 5) : cfg' = [cfg EXCEPT !.target = t]
           /\ phase' = (IF WithHoles THEN "hole" ELSE "start") /\ UNCHANGED <<ys, lo, hi, mid, evals, out>>
Hole == /\ phase = "hole"
        /\ \E a \in 0..cfg.n, b \in 0..cfg.n : a < b /\ cfg' = [cfg EXCEPT !.hole = <<a, b>>]
        /\ phase' = "start" /\ UNCHANGED <<ys, lo, hi, mid, evals, out>>
Start == /\ phase = "start" /\ lo' = 0 /\ hi' = W /\ mid' = W \div 2 /\ phase' = "eval" /\ UNCHANGED <<cfg, ys, evals, out>>
Evaluate ==
   /\ phase = "eval"
   /\ IF InHole(mid) THEN /\ phase' = "jump" /\ evals' = evals + Bool01(~WithHoles) /\ UNCHANGED <<lo, hi, mid>>
      ELSE IF Near(mid) THEN /\ phase' = "found" /\ evals' = evals + Bool01(~WithHoles) /\ UNCHANGED <<lo, hi, mid>>
      ELSE LET l == IF F(mid) > Target THEN lo ELSE mid
               h == IF F(mid) > Target THEN mid ELSE hi IN
           /\ lo' = l /\ hi' = h /\ evals' = evals + Bool01(~WithHoles)
           /\ IF (l + h) % 2 = 1 \/ l = h THEN phase' = "fine" /\ mid' = mid ELSE phase' = "eval" /\ mid' = (l + h) \div 2
   /\ UNCHANGED <<cfg, ys, out>>
Jump == /\ phase = "jump" /\ mid' \in 0..W /\ phase' = "eval" /\ UNCHANGED <<cfg, ys, lo, hi, evals, out>>
Next == Config \/ Values \/ Problem \/ Hole \/ Start \/ Evaluate \/ Jump
Spec == Init /\ [][Next]_vars

Running == phase \in {"eval", "jump", "found", "fine"}
Laws == /\ Running => /\ lo > 0 => F(lo) <= Target - Delta
                      /\ hi < W => F(hi) >= Target + Delta
        /\ phase = "found" => mid \in Solutions
        /\ phase \in {"eval", "found"} /\ cfg.hole = <<>> /\ Attainable => evals <= Rate + 1
        /\ phase = "fine" /\ cfg.hole = <<>> => ~Attainable \/ evals <= Rate + 1

(* problems for the implementation: what it must do *)
GenNext == Config \/ Values \/ Problem \/ Hole \/ (phase = "start" /\ phase' = "over" /\ UNCHANGED <<cfg, ys, lo, hi, mid, evals, out>>)
GenSpec == Init /\ [][GenNext]_vars
(* distance of the (first) solution from the failing part, in integers of the domain: x with ys[k] <= t <= ys[k+1] *)
Cell == CHOOSE k \in 1..cfg.n : 4 * ys[k] <= cfg.target /\ cfg.target <= 4 * ys[k + 1]
HoleFar == cfg.hole # <<>> /\ Attainable /\ (Cell + 1 <= cfg.hole[1] \/ Cell - 1 >= cfg.hole[2] + 1)
Reach == 4 * ys[1] - cfg.delta < cfg.target /\ cfg.target < 4 * ys[cfg.n + 1] + cfg.delta
Outcome == IF ~Reach THEN "none" ELSE IF ~Attainable THEN "either" ELSE IF cfg.hole = <<>> THEN "found" ELSE IF HoleFar THEN "found" ELSE "either"
GenEmit == phase = "over" => PrintT("@@" \o ToJson([n |-> cfg.n, ys |-> ys, target |-> cfg.target, delta |-> cfg.delta, hole |-> cfg.hole, outcome |-> Outcome, rate |-> Rate]))

(*----------------------------- generators -------------------------------*)
(* mi in units of 1/8 nat *)
Kinds == {"gaussian", "spiral", "half-cube", "alpha", "lambda", "interacting"}
TaskInit == /\ phase = "task" /\ cfg \in {[kind |-> k, dim |-> d, mi |-> m, extra |-> e] : k \in Kinds, d \in 1..6, m \in {1, 2, 8, 12, 27, MaxMi}, e \in 0..5}
            /\ ys = <<>> /\ lo = 0 /\ hi = 0 /\ mid = 0 /\ evals = 0 /\ out = <<>>
Names == {"family", ""}
Gauss(k) == k \in {"gaussian", "spiral", "half-cube"}
(* extra: spiral speed index, n_interacting (0..dim), alpha index *)
Sensible == CASE cfg.kind \in {"gaussian", "half-cube", "alpha"} -> cfg.extra = 0
              [] cfg.kind = "spiral" -> cfg.extra \in 0..2
              [] cfg.kind = "lambda" -> cfg.extra \in 0..2
              [] cfg.kind = "interacting" -> 1 <= cfg.extra /\ cfg.extra <= cfg.dim
(* two correlated pairs need two dimensions, and the rotation of Y a third coordinate *)
Exists == IF ~Gauss(cfg.kind) THEN "task" ELSE IF cfg.dim < 2 THEN "none" ELSE IF cfg.kind = "spiral" /\ cfg.dim = 2 THEN "refused" ELSE "task"
TaskSpec == TaskInit /\ [][FALSE]_vars
TaskEmit == Sensible => PrintT("@@" \o ToJson([kind |-> cfg.kind, dim |-> cfg.dim, mi |-> cfg.mi, extra |-> cfg.extra, exists |-> Exists,
               interacting |-> IF Gauss(cfg.kind) THEN 2 ELSE IF cfg.kind = "alpha" THEN 0 ELSE IF cfg.kind = "lambda" THEN cfg.dim ELSE cfg.extra]))
=============================================================================
