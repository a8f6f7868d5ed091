------------------------------- MODULE Gauss -------------------------------
(***************************************************************************)
(* Gaussian ground truths.  A behaviour builds a generative model          *)
(* (integer loadings plus individual noise), assembles its covariance and  *)
(* then applies symmetries under which mutual information must not change  *)
(* (swapping the roles, permuting coordinates inside X or Y, rescaling a   *)
(* coordinate, moving the mean), or corrupts the covariance.               *)
(* Mutual information is 1/2 log(ratio) with an exact rational ratio       *)
(*     ratio = det(S_x) det(S_y) / det(S_xy).                              *)
(***************************************************************************)
EXTENDS Num, Json

CONSTANTS DimPairs, Coefs, Latents, Bound, Scales, MaxSteps

VARIABLES dx, dy, load, sigma, mean, phase, steps, orig, ratio, class, hist,
          op,    \* the operation picked for the next step
          goal   \* "clean" or "corrupt"
vars == <<dx, dy, load, sigma, mean, phase, steps, orig, ratio, class, hist, op, goal>>

n == dx + dy
XI == Range1(1, dx)
YI == Range1(dx + 1, dx + dy)

RatioOf(s, a, b) ==
    LET detx == Det(SubMat(s, Range1(1, a), Range1(1, a)))
        dety == Det(SubMat(s, Range1(a + 1, a + b), Range1(a + 1, a + b)))
        det == Det(s)
    IN  QMul(Q(detx, det), QI(dety))

(* positive semi-definite iff every principal minor is non-negative *)
IsPSD(m) == /\ IsSymmetric(m)
            /\ \A I \in SUBSET (1..Len(m)) :
                 I = {} \/ LET q == SetToSortSeq(I, LAMBDA a, b : a < b) IN Det(SubMat(m, q, q)) >= 0
Classify(m) == IF ~IsSymmetric(m) THEN "asymmetric"
               ELSE IF IsPosDef(m) THEN "valid"
               ELSE IF IsPSD(m) THEN "singular"
               ELSE "indefinite"

Init == /\ \E d \in DimPairs : dx = d[1] /\ dy = d[2]
        /\ load = <<>> /\ sigma = <<>> /\ mean = <<>> /\ phase = "rows" /\ steps = 0
        /\ orig = <<>> /\ ratio = <<1, 1>> /\ class = "" /\ hist = <<>> /\ op = "" /\ goal \in {"clean", "corrupt"}

(* one loading at a time, the last entry of a row is the variance of the individual noise *)
AddEntry == /\ phase = "rows" /\ Len(load) < n * (Latents + 1)
            /\ \E v \in (IF Len(load) % (Latents + 1) = Latents THEN 1..3 ELSE Coefs) :
                  load' = Append(load, v)
            /\ UNCHANGED <<dx, dy, sigma, mean, phase, steps, orig, ratio, class, hist, op, goal>>
Row(i) == SubSeq(load, (i - 1) * (Latents + 1) + 1, (i - 1) * (Latents + 1) + Latents)
NoiseVar(i) == load[i * (Latents + 1)]
Assemble == /\ phase = "rows" /\ Len(load) = n * (Latents + 1)
            /\ LET s == TLCEval([i \in 1..n |-> [j \in 1..n |->
                          Dot(Row(i), Row(j)) + IF i = j THEN NoiseVar(i) ELSE 0]])
               IN  sigma' = s /\ orig' = [s |-> s, dx |-> dx, dy |-> dy]
            /\ mean' = [i \in 1..n |-> 0]
            /\ phase' = "sym" /\ hist' = <<"assemble">>
            /\ UNCHANGED <<dx, dy, load, steps, ratio, class, op, goal>>

PickOp == /\ phase = "sym" /\ op = "" /\ steps < MaxSteps
          /\ op' \in {"swap", "shift"}
                   \cup (IF n > 2 THEN {"permute"} ELSE {})
                   \cup (IF \E i \in 1..n : sigma[i][i] <= Bound \div 9 THEN {"rescale"} ELSE {})
          /\ UNCHANGED <<dx, dy, load, sigma, mean, phase, steps, orig, ratio, class, hist, goal>>
CanStep(o) == phase = "sym" /\ op = o /\ op' = "" /\ goal' = goal
Reindex(p, a, b, o) ==      \* p maps new positions to old ones
    /\ sigma' = [i \in 1..n |-> [j \in 1..n |-> sigma[p[i]][p[j]]]]
    /\ mean' = [i \in 1..n |-> mean[p[i]]]
    /\ dx' = a /\ dy' = b
    /\ hist' = Append(hist, o)
    /\ steps' = steps + 1
    /\ UNCHANGED <<load, phase, orig, ratio, class>>
SwapXY == CanStep("swap") /\ Reindex([i \in 1..n |-> IF i <= dy THEN dx + i ELSE i - dy], dy, dx, "swap")
PermInside == CanStep("permute") /\ \E i, j \in 1..n :
                 /\ i < j /\ (j <= dx \/ i > dx)
                 /\ Reindex([k \in 1..n |-> IF k = i THEN j ELSE IF k = j THEN i ELSE k], dx, dy, "permute")
Rescale == /\ CanStep("rescale")
           /\ \E i \in 1..n, c \in Scales :
                /\ sigma[i][i] * c * c <= Bound
                /\ sigma' = [a \in 1..n |-> [b \in 1..n |->
                       sigma[a][b] * (IF a = i THEN c ELSE 1) * (IF b = i THEN c ELSE 1)]]
                /\ mean' = [mean EXCEPT ![i] = @ * c]
                /\ hist' = Append(hist, "rescale")
                /\ steps' = steps + 1
                /\ UNCHANGED <<dx, dy, load, phase, orig, ratio, class>>
Shift == /\ CanStep("shift")
         /\ \E i \in 1..n, c \in {-100, 3, 12} :
              /\ mean' = [mean EXCEPT ![i] = @ + c]
              /\ hist' = Append(hist, "shift") /\ steps' = steps + 1
              /\ UNCHANGED <<dx, dy, load, sigma, phase, orig, ratio, class>>
Corrupt == /\ phase = "sym" /\ goal = "corrupt" /\ steps = MaxSteps
           /\ \E i, j \in 1..n, c \in {-9, -3, -1, 1, 4} :
                \/ /\ i # j /\ sigma' = [sigma EXCEPT ![i][j] = @ + c]
                \/ /\ i <= j /\ sigma' = [a \in 1..n |-> [b \in 1..n |->
                        sigma[a][b] + IF {a, b} = {i, j} THEN 3 * c ELSE 0]]
           /\ phase' = "corrupt" /\ hist' = Append(hist, "corrupt")
           /\ UNCHANGED <<dx, dy, load, mean, steps, orig, ratio, class, op, goal>>
Finish == /\ phase = "corrupt" \/ (phase = "sym" /\ goal = "clean" /\ steps = MaxSteps)
          /\ class' = Classify(sigma)
          /\ ratio' = IF class' = "valid" THEN RatioOf(sigma, dx, dy) ELSE <<1, 1>>
          /\ phase' = "done"
          /\ UNCHANGED <<dx, dy, load, sigma, mean, steps, orig, hist, op, goal>>
Next == AddEntry \/ Assemble \/ PickOp \/ SwapXY \/ PermInside \/ Rescale \/ Shift \/ Corrupt \/ Finish
Spec == Init /\ [][Next]_vars

(*------------------------------ properties ------------------------------*)
Done == phase = "done"
Clean == Done /\ ~\E i \in DOMAIN hist : hist[i] = "corrupt"
TypeOK == phase \in {"rows", "sym", "corrupt", "done"}
Valid == Clean => class = "valid"
NonNegative == (Done /\ class = "valid") => QLeq(<<1, 1>>, ratio)          \* Fischer's inequality
Invariance == Clean => ratio = RatioOf(orig.s, orig.dx, orig.dy)
ZeroIffIndependent ==                                          \* ratio 1 iff the cross block is 0
    (Done /\ class = "valid") =>
        ((ratio = <<1, 1>>) <=> \A i \in 1..dx, j \in (dx + 1)..n : sigma[i][j] = 0)
(* independent noise added to a coordinate never raises it (data processing) *)
NoiseLowers ==
    (Clean /\ n <= 4) => \A i \in 1..n : QLeq(RatioOf([sigma EXCEPT ![i][i] = @ + 1], dx, dy), ratio)
Emit == Done =>
    PrintT("@@" \o ToJson([dx |-> dx, dy |-> dy, sigma |-> sigma, mean |-> mean, ratio |-> ratio,
                           class |-> class, hist |-> hist]))

(*------------- every small square matrix, and every correlation ---------*)
VARIABLE small
MInit == /\ small \in [1..2 -> [1..2 -> Coefs]]
         /\ dx = 1 /\ dy = 1 /\ load = <<>> /\ sigma = <<>> /\ mean = <<>> /\ phase = "rows"
         /\ steps = 0 /\ orig = <<>> /\ ratio = <<1, 1>> /\ class = "" /\ hist = <<>> /\ op = "" /\ goal = "clean"
MSpec == MInit /\ [][FALSE]_<<vars, small>>
MEmit == LET c == Classify(small)
         IN PrintT("@@" \o ToJson([dx |-> 1, dy |-> 1, sigma |-> small, mean |-> <<0, 0>>, class |-> c,
              ratio |-> IF c = "valid" THEN RatioOf(small, 1, 1) ELSE <<1, 1>>, hist |-> <<"small">>]))
NSpec == Init /\ small = 0 /\ [][Next /\ UNCHANGED small]_<<vars, small>>
=============================================================================
