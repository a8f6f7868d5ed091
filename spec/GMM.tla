-------------------------------- MODULE GMM --------------------------------
(***************************************************************************)
(* The Gaussian-mixture estimator as a state machine.  `cur` is the last   *)
(* successful fit (0 = none), fits are numbered.  Posterior samples of fit  *)
(* f are the integer tables Mean/Cov/Weight below (what the Markov chain    *)
(* produced); the distribution of posterior sample i is the mixture with    *)
(* these parameters split at dim_x.  Samples of "ident" fits have mutual    *)
(* information exactly i*log 2, so that posterior values name their sample. *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS MaxLen, Sizes, OpKinds  \* length of histories, numbers of posterior samples, operations
VARIABLES cfg, script, pick, cur, nfit, l
vars == <<cfg, script, pick, cur, nfit, l>>
Dims == {<<1,1>>, <<2,1>>, <<1,2>>, <<2,2>>}
Cfgs == [K : 1..3, S : Sizes, warm : {1, 4}, thin : 0..5, std : {TRUE, FALSE}, alpha : {"none", "0.5", "3"}, seed : {0, 1, 7}, n : {2000, 3000}]
NoFit == [id |-> 0, kind |-> "", dx |-> 0, dy |-> 0]

(*-------------------------- posterior samples ----------------------------*)
Mean(f, s, c, j) == IF f.kind = "ident" THEN 3 * f.id - j ELSE ((f.id * 7 + s * 5 + c * 3 + j * j) % 11) - 5
Root(f, s, c, i, j) == ((f.id + 2 * s + 3 * c + 5 * i + 7 * j + i * j) % 5) - 2
Pow4(k) == 4^k
Cov(f, s, c, i, j) ==
    IF f.kind = "ident"
    THEN LET a == 1   b == f.dx + 1   q == Pow4(s)
         IN CASE s = 0 -> IF i = j THEN 1 ELSE 0
              [] i = b /\ j = b -> q
              [] {i, j} \subseteq {a, b} -> q - 1
              [] OTHER -> IF i = j THEN 1 ELSE 0
    ELSE LET d == f.dx + f.dy IN SumSeq([k \in 1..d |-> Root(f, s, c, i, k) * Root(f, s, c, j, k)]) + (IF i = j THEN 1 + c ELSE 0)
Weight(f, s, c) == IF cfg.K = 1 THEN 8 ELSE IF cfg.K = 2 THEN (IF c = 1 THEN 1 + (s % 4) ELSE 7 - (s % 4))
                   ELSE CASE c = 1 -> 1 + (s % 3) [] c = 2 -> 2 [] OTHER -> 5 - (s % 3)
Sample(f, s) == [weights |-> [c \in 1..cfg.K |-> Weight(f, s, c)],
                 mean |-> [c \in 1..cfg.K |-> [j \in 1..(f.dx + f.dy) |-> Mean(f, s, c, j)]],
                 cov |-> [c \in 1..cfg.K |-> [i \in 1..(f.dx + f.dy) |-> [j \in 1..(f.dx + f.dy) |-> Cov(f, s, c, i, j)]]]]
Posterior(f) == [s \in 1..cfg.S |-> Sample(f, s - 1)]
(* the mixture of one posterior sample, split into X and Y *)
Split(f, s) ==
    LET p == Sample(f, s) IN
    [dx |-> f.dx, dy |-> f.dy, weights |-> p.weights, mean |-> p.mean, cov |-> p.cov,
     mx |-> [c \in 1..cfg.K |-> [j \in 1..f.dx |-> p.mean[c][j]]],
     my |-> [c \in 1..cfg.K |-> [j \in 1..f.dy |-> p.mean[c][f.dx + j]]],
     cx |-> [c \in 1..cfg.K |-> [i \in 1..f.dx |-> [j \in 1..f.dx |-> p.cov[c][i][j]]]],
     cy |-> [c \in 1..cfg.K |-> [i \in 1..f.dy |-> [j \in 1..f.dy |-> p.cov[c][f.dx + i][f.dx + j]]]]]

(*------------------------------- histories -------------------------------*)
AllKinds == {"run", "posterior", "estimate", "mismatch", "crash", "dist", "mi", "mi2", "dist2", "params"}
Kinds == OpKinds
Init == /\ cfg \in Cfgs /\ cfg.thin <= cfg.S /\ script = <<>> /\ pick = <<>> /\ cur = NoFit /\ nfit = 0 /\ l = 0
P1 == /\ Len(script) < MaxLen /\ pick = <<>> /\ l = 0 /\ \E k \in Kinds : pick' = <<k>>
      /\ UNCHANGED <<cfg, script, cur, nfit, l>>
P2 == /\ Len(pick) = 1
      /\ \E d \in Dims, i \in 0..(cfg.S - 1), t \in 0..MinI(cfg.S, 5), key \in {3, 8}, n \in {0, 500, 700} : pick' = <<pick[1], d, i, t, key, n>>
      /\ UNCHANGED <<cfg, script, cur, nfit, l>>
Thin(t) == IF t # 0 THEN t ELSE IF cfg.thin # 0 THEN cfg.thin ELSE cfg.S
Do ==
  /\ Len(pick) = 6 /\ pick' = <<>>
  /\ LET k == pick[1]  d == pick[2]  i == pick[3]  t == pick[4]
         fit == [id |-> nfit + 1, kind |-> IF k = "run" THEN "plain" ELSE "ident", dx |-> d[1], dy |-> d[2]]
     IN CASE k = "run" -> /\ cur' = fit /\ nfit' = nfit + 1
                          /\ script' = Append(script, [op |-> "run", dx |-> d[1], dy |-> d[2], post |-> TLCEval(Posterior(fit))])
          [] k \in {"posterior", "estimate"} ->
                /\ cur' = fit /\ nfit' = nfit + 1
                /\ script' = Append(script, [op |-> k, dx |-> d[1], dy |-> d[2], post |-> TLCEval(Posterior(fit)), thin |-> t, count |-> Thin(t)])
          [] k \in {"mismatch", "crash"} ->
                /\ script' = Append(script, [op |-> k, dx |-> d[1], dy |-> d[2]]) /\ UNCHANGED <<cur, nfit>>
          [] k \in {"dist", "dist2", "mi", "mi2"} ->
                /\ script' = Append(script, [op |-> IF k \in {"dist", "dist2"} THEN "dist" ELSE "mi", idx |-> i, key |-> pick[5], n |-> pick[6],
                                             ok |-> cur.id # 0, want |-> IF cur.id = 0 THEN NoFit ELSE TLCEval(Split(cur, i))])
                /\ UNCHANGED <<cur, nfit>>
          [] OTHER -> script' = Append(script, [op |-> k]) /\ UNCHANGED <<cur, nfit>>
  /\ UNCHANGED <<cfg, l>>
Finish == /\ Len(script) = MaxLen /\ l = 0 /\ l' = 1 /\ UNCHANGED <<cfg, script, pick, cur, nfit>>
Next == P1 \/ P2 \/ Do \/ Finish
Spec == Init /\ [][Next]_vars
Laws == /\ cur.id <= nfit
        /\ (l = 1 /\ cur.id # 0) => \A s \in 0..(cfg.S - 1) :
              LET p == Sample(cur, s) IN
              /\ SumSeq(p.weights) = 8 /\ \A c \in 1..cfg.K : p.weights[c] > 0
              /\ \A c \in 1..cfg.K : \A i, j \in 1..(cur.dx + cur.dy) : p.cov[c][i][j] = p.cov[c][j][i]
Emit == l = 1 => PrintT("@@" \o ToJson([cfg |-> cfg, script |-> script]))
=============================================================================
