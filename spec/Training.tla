------------------------------ MODULE Training ------------------------------
(***************************************************************************)
(* The training protocol of the neural estimators: split, batches, one     *)
(* update per step, test evaluations, early stopping, and the report.      *)
(* The critic is abstracted to the number of updates it has received, the  *)
(* objective to scripts of training and test values (integers).            *)
(*                                                                         *)
(* GenSpec chooses a configuration and runs the protocol; TraceSpec checks *)
(* recordings of the real estimators: every recorded event has to be a     *)
(* step the protocol allows and the result has to be the one it reports.   *)
(***************************************************************************)
EXTENDS Num, Json, IOUtils
CONSTANTS Ns, Splits, MaxSteps, Values
VARIABLES cfg, steps, hist, tested, phase, pick, tid, l, bad, trids, teids
vars == <<cfg, steps, hist, tested, phase, pick, tid, l, bad, trids, teids>>
TL == INSTANCE TrainLog WITH TrainValues <- {}, TestValues <- {}, Factors <- {}, MaxLen <- 0, Gaps <- {},
                             train <- <<>>, test <- <<>>, step <- 0, op <- "", done <- FALSE
NoSplit == <<1, 1>>
NTrain(c) == IF c.split = NoSplit THEN c.n ELSE (c.split[1] * c.n) \div c.split[2]
NTest(c) == IF c.split = NoSplit THEN c.n ELSE c.n - NTrain(c)
TooLarge(c) == c.batch > NTrain(c)

(*------------------------------- protocol -------------------------------*)
Stop == TL!StopAsked(TRUE, TL!Vals(hist))
DueTest == steps > 0 /\ steps % cfg.every = 0 /\ ~tested
MayTrain == ~TooLarge(cfg) /\ ~DueTest /\ ~Stop /\ steps < cfg.max
Ended == TooLarge(cfg) \/ (~DueTest /\ (Stop \/ steps = cfg.max))
TrainH == [i \in 1..steps |-> <<i, cfg.trv[i]>>]
Result == [nan |-> hist = <<>>, best |-> IF hist = <<>> THEN 0 ELSE TL!MaxOf(TL!Vals(hist)),
           hist |-> hist, steps |-> steps,
           flags |-> TL!Flags(TRUE, <<1, 10>>, TrainH, hist),
           ties |-> TL!Ties(<<1, 10>>, TrainH)]

(*------------------------------ generation ------------------------------*)
GInit == /\ cfg = [n |-> 0] /\ steps = 0 /\ hist = <<>> /\ tested = FALSE /\ phase = "n"
         /\ pick = <<>> /\ tid = 0 /\ l = 0 /\ bad = "" /\ trids = {} /\ teids = {}
Set(f, S, next) == /\ \E v \in S : cfg' = cfg @@ (f :> v)
                   /\ phase' = next /\ UNCHANGED <<steps, hist, tested, pick, tid, l, bad, trids, teids>>
ChooseN == phase = "n" /\ (\E v \in Ns : cfg' = [n |-> v]) /\ phase' = "split"
           /\ UNCHANGED <<steps, hist, tested, pick, tid, l, bad, trids, teids>>
ChooseSplit == phase = "split" /\ Set("split", {s \in Splits : (s[1] * cfg.n) \div s[2] >= 1}, "batch")
ChooseBatch == phase = "batch" /\ Set("batch", 1..(NTrain(cfg) + 2), "every")
ChooseEvery == phase = "every" /\ Set("every", 1..6, "max")
ChooseMax == phase = "max" /\ Set("max", 1..MaxSteps, "script")
Script == /\ phase = "script" /\ Len(pick) < 2 * cfg.max
          /\ \E v \in Values : pick' = Append(pick, v)
          /\ UNCHANGED <<cfg, steps, hist, tested, phase, tid, l, bad, trids, teids>>
Ready == /\ phase = "script" /\ Len(pick) = 2 * cfg.max
         /\ cfg' = cfg @@ [trv |-> SubSeq(pick, 1, cfg.max), tev |-> SubSeq(pick, cfg.max + 1, 2 * cfg.max)]
         /\ phase' = "run" /\ UNCHANGED <<steps, hist, tested, pick, tid, l, bad, trids, teids>>
DoTrain == /\ phase = "run" /\ MayTrain /\ steps' = steps + 1 /\ tested' = FALSE
           /\ UNCHANGED <<cfg, hist, phase, pick, tid, l, bad, trids, teids>>
DoTest == /\ phase = "run" /\ DueTest /\ hist' = Append(hist, <<steps, cfg.tev[steps]>>) /\ tested' = TRUE
          /\ UNCHANGED <<cfg, steps, phase, pick, tid, l, bad, trids, teids>>
Finish == /\ phase = "run" /\ Ended /\ phase' = "end"
          /\ UNCHANGED <<cfg, steps, hist, tested, pick, tid, l, bad, trids, teids>>
GNext == ChooseN \/ ChooseSplit \/ ChooseBatch \/ ChooseEvery \/ ChooseMax \/ Script \/ Ready \/ DoTrain \/ DoTest \/ Finish
GenSpec == GInit /\ [][GNext]_vars /\ WF_vars(GNext)
(* consequences *)
ProtocolLaws == phase = "end" =>
   IF TooLarge(cfg) THEN steps = 0 /\ hist = <<>>
   ELSE /\ steps <= cfg.max /\ Len(hist) = steps \div cfg.every
        /\ \A i \in 1..Len(hist) : hist[i] = <<i * cfg.every, cfg.tev[i * cfg.every]>>
        /\ steps < cfg.max => Stop /\ steps % cfg.every = 0
        /\ \A i \in 1..(Len(hist) - 1) : ~TL!StopAsked(TRUE, TL!Vals(SubSeq(hist, 1, i)))
        /\ NTrain(cfg) + (IF cfg.split = NoSplit THEN 0 ELSE NTest(cfg)) = cfg.n
Terminates == <>(phase = "end")
Emit == phase = "end" => PrintT("@@" \o ToJson([cfg |-> cfg, toolarge |-> TooLarge(cfg), ntrain |-> NTrain(cfg),
                                               ntest |-> NTest(cfg), res |-> IF TooLarge(cfg) THEN <<>> ELSE <<Result>>]))

(*--------------------------- trace validation ---------------------------*)
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tid]
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ cfg = Traces[tid].cfg /\ steps = 0 /\ hist = <<>>
             /\ tested = FALSE /\ phase = "trace" /\ pick = <<>> /\ trids = {} /\ teids = {}
Ids(e) == {e.ids[i] : i \in 1..Len(e.ids)}
CheckTrain(e) ==
   IF TooLarge(cfg) THEN "no training when the batch is larger than the training set"
   ELSE IF DueTest THEN "the test objective is evaluated after each multiple of test_every_n_steps"
   ELSE IF Stop THEN "training stops right after the second test evaluation without a new best"
   ELSE IF steps = cfg.max THEN "training stops at max_n_steps"
   ELSE IF e.w # steps THEN "exactly one optimiser update per step"
   ELSE IF ~e.paired THEN "X-Y pairing is kept in training batches"
   ELSE IF Len(e.ids) # cfg.batch \/ Cardinality(Ids(e)) # cfg.batch THEN "batch_size distinct training pairs"
   ELSE ""
CheckTest(e) ==
   IF ~DueTest THEN "the test objective is evaluated only after multiples of test_every_n_steps"
   ELSE IF e.w # steps THEN "the test objective is evaluated with the current critic"
   ELSE IF ~e.paired THEN "X-Y pairing is kept in the test set"
   ELSE IF Len(e.ids) # NTest(cfg) \/ Cardinality(Ids(e)) # NTest(cfg) THEN "the test objective is evaluated on the whole test set"
   ELSE IF teids # {} /\ Ids(e) # teids THEN "the test set is the same at every evaluation"
   ELSE ""
CheckEnd ==
   LET r == T.res IN
   IF TooLarge(cfg) THEN
        IF ~r.nan \/ ~r.toolarge THEN "NaN and the flag when the batch is larger than the training set"
        ELSE IF r.critic # -1 THEN "no critic when the batch is larger than the training set" ELSE ""
   ELSE IF DueTest THEN "the test objective is evaluated after each multiple of test_every_n_steps"
   ELSE IF ~Stop /\ steps < cfg.max THEN "training goes on until max_n_steps or early stopping"
   ELSE IF r.toolarge THEN "no flag when the batch fits"
   ELSE IF r.nan # (hist = <<>>) THEN "the estimate is NaN only without test evaluations"
   ELSE IF ~r.nan /\ r.best # TL!MaxOf(TL!Vals(hist)) THEN "the estimate is the best test value"
   ELSE IF r.hist # hist THEN "the history lists (step, value) of all test evaluations"
   ELSE IF r.steps # steps THEN "the reported number of steps is the number performed"
   ELSE IF r.critic # steps THEN "the trained critic is the one after the last step"
   ELSE IF cfg.split # NoSplit /\ trids \cap teids # {} THEN "training and test data are disjoint"
   ELSE IF Cardinality(trids) > NTrain(cfg) THEN "training data has the requested size"
   ELSE IF T.cover /\ cfg.split # NoSplit /\ teids # {} /\ trids \cup teids # 1..cfg.n THEN "training and test data cover the sample"
   ELSE IF Cardinality(trids) < T.floor THEN "batches are drawn from the whole training set"
   ELSE IF T.cover /\ Cardinality(trids) # NTrain(cfg) THEN "the whole training set is used"
   ELSE ""
TStep == /\ bad = "" /\ l <= Len(T.ev)
         /\ LET e == T.ev[l]
                c == IF e.k = "train" THEN CheckTrain(e) ELSE CheckTest(e)
            IN IF c # "" THEN bad' = c /\ UNCHANGED <<l, steps, hist, tested, trids, teids>>
               ELSE /\ l' = l + 1 /\ bad' = ""
                    /\ IF e.k = "train"
                       THEN steps' = steps + 1 /\ tested' = FALSE /\ trids' = trids \cup Ids(e) /\ UNCHANGED <<hist, teids>>
                       ELSE hist' = Append(hist, <<steps, cfg.tev[steps]>>) /\ tested' = TRUE /\ teids' = Ids(e)
                            /\ UNCHANGED <<steps, trids>>
         /\ UNCHANGED <<cfg, phase, pick, tid>>
TEnd == /\ bad = "" /\ l = Len(T.ev) + 1 /\ bad' = CheckEnd /\ l' = l + 1
        /\ UNCHANGED <<cfg, steps, hist, tested, phase, pick, tid, trids, teids>>
TraceSpec == TraceInit /\ [][TStep \/ TEnd]_vars
Report == (bad # "" \/ l > Len(T.ev) + 1) =>
    PrintT("@@" \o ToJson([tid |-> tid, ok |-> bad = "", at |-> l, clause |-> bad]))
=============================================================================
