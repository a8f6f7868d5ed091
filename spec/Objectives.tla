----------------------------- MODULE Objectives -----------------------------
(***************************************************************************)
(* The variational objectives of a critic on a batch of n pairs.           *)
(*                                                                         *)
(* The critic's score of (x_i, y_j) is                                     *)
(*      log A[i][j] + (g + r[i] + c[j]) log 2                              *)
(* with positive integers A and integers g, r, c, so that every sum of     *)
(* exponentials is 2^g times an integer.  Values are kept exactly as       *)
(*      InfoNCE = log n + (1/n) sum_i log(pos_i / row_i)                   *)
(*      DV      = (1/n) sum_i log pos_i - log(off / (n (n-1)))             *)
(*      NWJ     = (1/n) sum_i log(pos_i 2^g) - 2^g off / (e n (n-1))       *)
(* where pos_i, row_i and off (g left out) are the integers in `val`.      *)
(* Actions after the batch is complete: shifting all scores, adding a      *)
(* function of x, adding a function of y, permuting the pairs.             *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS Ns, Values, Shifts, Small, MaxOps, Grads
VARIABLES n, A, g, r, c, ops, op, val, done
vars == <<n, A, g, r, c, ops, op, val, done>>

W(i, j) == A[i][j] * Pow(2, r[i] + c[j])
Eval ==
   LET I == 1..n IN
   [pos |-> [i \in I |-> W(i, i)],
    row |-> [i \in I |-> SumSeq([j \in I |-> W(i, j)])],
    off |-> SumSeq([i \in I |-> SumSeq([j \in I |-> IF i = j THEN 0 ELSE W(i, j)])])]
(* derivative with respect to the score of (x_i, y_j); NWJ's second term is *)
(* multiplied by 2^g / e                                                    *)
Grad == LET I == 1..n
            v == Eval
            d(i, j) == IF i = j THEN <<1, n>> ELSE <<0, 1>>
            o(i, j, a, b) == IF i = j THEN <<0, 1>> ELSE Q(a, b)
        IN [infonce |-> [i \in I |-> [j \in I |-> QSub(d(i, j), Q(W(i, j), n * v.row[i]))]],
            dv |-> [i \in I |-> [j \in I |-> QSub(d(i, j), o(i, j, W(i, j), v.off))]],
            nwj |-> [i \in I |-> [j \in I |-> <<d(i, j), o(i, j, W(i, j), n * (n - 1))>>]]]

Init == /\ n \in Ns /\ A = <<>> /\ g = 0 /\ r = [i \in 1..n |-> 0] /\ c = [i \in 1..n |-> 0]
        /\ ops = 0 /\ op = "" /\ val = <<>> /\ done = FALSE
AddRow == /\ Len(A) < n
          /\ \E row \in [1..n -> Values] : A' = Append(A, row)
          /\ UNCHANGED <<n, g, r, c, ops, op, val, done>>
(* entries one at a time, for larger batches *)
AddEntry == /\ Len(A) < n \/ (A # <<>> /\ Len(A[Len(A)]) < n)
            /\ \E v \in Values :
                 A' = IF A = <<>> \/ Len(A[Len(A)]) = n THEN Append(A, <<v>>)
                      ELSE [A EXCEPT ![Len(A)] = Append(@, v)]
            /\ UNCHANGED <<n, g, r, c, ops, op, val, done>>
Full == Len(A) = n /\ Len(A[n]) = n
PickOp == /\ Full /\ ~done /\ op = "" /\ ops < MaxOps
          /\ op' \in {"shift", "addx", "addy", "permute"}
          /\ UNCHANGED <<n, A, g, r, c, ops, val, done>>
Apply == /\ op # ""
         /\ CASE op = "shift" -> (\E s \in Shifts : g' = s) /\ UNCHANGED <<A, r, c>>
              [] op = "addx" -> (\E i \in 1..n, s \in Small : r' = [r EXCEPT ![i] = s]) /\ UNCHANGED <<A, g, c>>
              [] op = "addy" -> (\E i \in 1..n, s \in Small : c' = [c EXCEPT ![i] = s]) /\ UNCHANGED <<A, r, g>>
              [] op = "permute" ->
                   /\ \E a, b \in 1..n :
                        LET p == [i \in 1..n |-> IF i = a THEN b ELSE IF i = b THEN a ELSE i]
                        IN /\ a < b
                           /\ A' = [i \in 1..n |-> [j \in 1..n |-> A[p[i]][p[j]]]]
                           /\ r' = [i \in 1..n |-> r[p[i]]]
                           /\ c' = [i \in 1..n |-> c[p[i]]]
                   /\ UNCHANGED g
         /\ op' = "" /\ ops' = ops + 1 /\ UNCHANGED <<n, val, done>>
Finish == /\ Full /\ op = "" /\ ~done
          /\ val' = <<Eval, IF Grads THEN <<Grad>> ELSE <<>>>>
          /\ done' = TRUE /\ UNCHANGED <<n, A, g, r, c, ops, op>>
Steps == PickOp \/ Apply \/ Finish
Next == AddRow \/ Steps
NextE == AddEntry \/ Steps
Spec == Init /\ [][Next]_vars
SpecE == Init /\ [][NextE]_vars

(*------------------------------ consequences ----------------------------*)
(* InfoNCE <= log n;  the gradient of InfoNCE and DV is orthogonal to the   *)
(* directions that leave them unchanged                                     *)
Bounds == done =>
   LET v == val[1] IN
   /\ \A i \in 1..n : v.pos[i] <= v.row[i]
   /\ SumSeq(v.row) = v.off + SumSeq(v.pos)
   /\ Grads =>
        LET G == val[2][1] IN
        /\ \A i \in 1..n : QSum(G.infonce[i]) = <<0, 1>>
        /\ QSum([i \in 1..n |-> QSum(G.dv[i])]) = <<0, 1>>
(* the ratios pos_i/row_i as a bag do not depend on g, r or the order       *)
Invariance == [][ (op \in {"shift", "addx", "permute"} /\ Full) =>
      LET bag(AA, cc) == {<<x, Cardinality({i \in 1..n : Q(AA[i][i] * Pow(2, cc[i]), SumSeq([j \in 1..n |-> AA[i][j] * Pow(2, cc[j])])) = x})>> :
                           x \in {Q(AA[i][i] * Pow(2, cc[i]), SumSeq([j \in 1..n |-> AA[i][j] * Pow(2, cc[j])])) : i \in 1..n}}
      IN bag(A, c) = bag(A', c') ]_vars
Emit == done => PrintT("@@" \o ToJson([n |-> n, A |-> A, g |-> g, r |-> r, c |-> c, v |-> val[1], grad |-> val[2]]))
=============================================================================
