------------------------------ MODULE TrainLog ------------------------------
(***************************************************************************)
(* The training log: values are appended to the training and the test      *)
(* history, in any interleaving; the answers are functions of the two      *)
(* histories (sequences of <<step, value>> with integer values) and of the *)
(* settings.  The same operators define the answers in Training.tla and    *)
(* Mine.tla.                                                               *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS TrainValues, TestValues, Factors, MaxLen, Gaps
VARIABLES cfg, train, test, step, op, done
vars == <<cfg, train, test, step, op, done>>

NegInf == -1000   \* stands for minus infinity

(*----------------------- answers of the log -----------------------------*)
Vals(h) == [i \in 1..Len(h) |-> h[i][2]]
MaxOf(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : s[i] <= m
(* number of evaluations since the best value so far was reached first     *)
SinceBest(s) == IF s = <<>> THEN 0
                ELSE Len(s) - (CHOOSE i \in 1..Len(s) : s[i] = MaxOf(s) /\ \A j \in 1..(i - 1) : s[j] < s[i])
StopAsked(early, s) == early /\ SinceBest(s) >= 2
LastStep(h) == IF h = <<>> THEN 0 ELSE h[Len(h)][1]
Win(f, n) == (f[1] * n) \div f[2]
(* sums over windows of length w, ending at position w, w+1, ..., n        *)
WinSum(s, w, e) == SumSeq(SubSeq(s, e - w + 1, e))
WSums(s, w) == [i \in 1..(Len(s) - w + 1) |-> WinSum(s, w, w + i - 1)]
Flags(early, f, tr, ts) ==
   LET s == Vals(tr)
       w == Win(f, Len(s))
       ws == WSums(s, w)
       m == MaxOf(ws)
       last == ws[Len(ws)]
       prev == ws[Len(ws) - w + 1]
   IN [early_stopping_not_triggered |-> early /\ ~StopAsked(early, Vals(ts)),
       training_too_short_for_diagnostics |-> w < 1,
       max_training_mi_decreased |-> w >= 1 /\ 20 * m > 21 * last,
       training_mi_still_increasing |-> w >= 1 /\ 20 * last > 21 * prev]
(* exact ties of the 5% rule are decided by rounding and not compared *)
Ties(f, tr) == LET s == Vals(tr) w == Win(f, Len(s)) ws == WSums(s, w) IN
   IF w < 1 THEN <<FALSE, FALSE>>
   ELSE <<MaxOf(ws) # 0 /\ 20 * MaxOf(ws) = 21 * ws[Len(ws)],
          ws[Len(ws)] # 0 /\ 20 * ws[Len(ws)] = 21 * ws[Len(ws) - w + 1]>>

(*------------------------------ behaviours ------------------------------*)
Init == /\ \E e \in BOOLEAN, f \in Factors, a \in BOOLEAN, b \in BOOLEAN :
             cfg = [early |-> e, factor |-> f, train_history |-> a, test_history |-> b]
        /\ train = <<>> /\ test = <<>> /\ step = 0 /\ op = "" /\ done = FALSE
Pick == op = "" /\ ~done /\ op' \in {"train", "train2", "test", "finish"} /\ UNCHANGED <<cfg, train, test, step, done>>
LogTrain == /\ op \in {"train", "train2"} /\ Len(train) < MaxLen
            /\ \E d \in Gaps, v \in TrainValues : step' = step + d /\ train' = Append(train, <<step + d, v>>)
            /\ op' = "" /\ UNCHANGED <<cfg, test, done>>
LogTest == /\ op = "test" /\ Len(test) < MaxLen
           /\ \E v \in TestValues : test' = Append(test, <<step, v>>)
           /\ op' = "" /\ UNCHANGED <<cfg, train, step, done>>
Finish == /\ op = "finish" \/ (op \in {"train", "train2"} /\ Len(train) = MaxLen) \/ (op = "test" /\ Len(test) = MaxLen)
          /\ done' = TRUE /\ UNCHANGED <<cfg, train, test, step, op>>
(* in simulation: log at least some values before finishing *)
Skip == /\ op = "finish" /\ Len(train) < MaxLen \div 2 /\ op' = "" /\ UNCHANGED <<cfg, train, test, step, done>>
Next == Pick \/ LogTrain \/ LogTest \/ Finish \/ Skip
Spec == Init /\ [][Next]_vars

(*------------------------------ consequences ----------------------------*)
Laws == LET s == Vals(test) IN
  /\ StopAsked(TRUE, s) <=> (Len(s) >= 3 /\ \E b \in 1..(Len(s) - 2) :
        \A j \in (b + 1)..Len(s) : s[j] <= s[b])
  /\ ~StopAsked(FALSE, s)
(* the wish to stop, once there, can only be withdrawn by a new best value *)
Monotone == [][ (StopAsked(cfg.early, Vals(test)) /\ ~StopAsked(cfg.early, Vals(test')))
                  => MaxOf(Vals(test')) > MaxOf(Vals(test)) ]_vars
Emit == done => PrintT("@@" \o ToJson([cfg |-> cfg, train |-> train, test |-> test,
          final |-> IF test = <<>> THEN <<>> ELSE <<MaxOf(Vals(test))>>,
          stop |-> [i \in 1..Len(test) |-> StopAsked(cfg.early, SubSeq(Vals(test), 1, i))],
          last |-> LastStep(train),
          flags |-> Flags(cfg.early, cfg.factor, train, test), ties |-> Ties(cfg.factor, train)]))
=============================================================================
