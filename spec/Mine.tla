-------------------------------- MODULE Mine --------------------------------
(***************************************************************************)
(* MINE training with exponentially smoothed denominator.                  *)
(*                                                                         *)
(* The critic's score is T(x, y) = log A(x, y) (+ a parameter p whose      *)
(* value does not matter and whose derivative is 1), points are numbers    *)
(* 1..n.  Each step draws a batch of pairs and, independently, as many     *)
(* distinct Y values, smooths the denominator and moves p along            *)
(* 1 - batch_t / D_t.  Everything is rational; test values enter the       *)
(* trace as ranks.                                                         *)
(***************************************************************************)
EXTENDS Num, Json, IOUtils
CONSTANTS Ns, Splits, Alphas, MaxSteps
VARIABLES cfg, phase, steps, hist, tested, den, corr, tid, l, bad, trids, teids
vars == <<cfg, phase, steps, hist, tested, den, corr, tid, l, bad, trids, teids>>
TL == INSTANCE TrainLog WITH TrainValues <- {}, TestValues <- {}, Factors <- {}, MaxLen <- 0, Gaps <- {},
                             train <- <<>>, test <- <<>>, step <- 0, op <- "", done <- FALSE
NoSplit == <<1, 1>>
NTrain(c) == IF c.split = NoSplit THEN c.n ELSE (c.split[1] * c.n) \div c.split[2]
NTest(c) == IF c.split = NoSplit THEN c.n ELSE c.n - NTrain(c)
TooLarge(c) == c.batch > NTrain(c)
(* the critic *)
A(x, y) == 1 + ((cfg.f[1] * x + cfg.f[2] * y + cfg.f[3] * x * y) % cfg.f[4])

(*----------------------------- smoothing --------------------------------*)
(* D_t = alpha * batch_t + (1 - alpha) * D_{t-1}                           *)
Smooth(alpha, d, b) == QAdd(QMul(alpha, b), QMul(QSub(<<1, 1>>, alpha), d))
BatchDen(xs, us) == Q(SumSeq([i \in 1..Len(xs) |-> A(xs[i], us[i])]), Len(xs))

(*------------------------------ protocol --------------------------------*)
Stop == TL!StopAsked(TRUE, TL!Vals(hist))
DueTest == steps > 0 /\ steps % cfg.every = 0 /\ ~tested

(*------------------- generation: configurations, and D ------------------*)
Fs == {<<1, 1, 0, 5>>, <<2, 3, 1, 7>>, <<0, 0, 0, 1>>, <<1, 0, 0, 4>>, <<0, 1, 0, 3>>, <<1, 4, 3, 20>>, <<5, 7, 2, 11>>, <<331, 517, 29, 2003>>}
GInit == /\ cfg = [n |-> 0] /\ phase = "n" /\ steps = 0 /\ hist = <<>> /\ tested = FALSE /\ den = <<0, 1>>
         /\ corr = <<>> /\ tid = 0 /\ l = 0 /\ bad = "" /\ trids = {} /\ teids = {}
Rest == UNCHANGED <<steps, hist, tested, den, corr, tid, l, bad, trids, teids>>
Set(f, S, next) == (\E v \in S : cfg' = cfg @@ (f :> v)) /\ phase' = next /\ Rest
GNext == \/ phase = "n" /\ (\E v \in Ns : cfg' = [n |-> v]) /\ phase' = "split" /\ Rest
         \/ phase = "split" /\ Set("split", {s \in Splits : (s[1] * cfg.n) \div s[2] >= 1}, "batch")
         \/ phase = "batch" /\ Set("batch", 1..(NTrain(cfg) + 1), "every")
         \/ phase = "every" /\ Set("every", 1..5, "max")
         \/ phase = "max" /\ Set("max", 1..MaxSteps, "alpha")
         \/ phase = "alpha" /\ Set("alpha", Alphas, "f")
         \/ phase = "f" /\ Set("f", Fs, "end")
GenSpec == GInit /\ [][GNext]_vars
Emit == phase = "end" => PrintT("@@" \o ToJson([cfg |-> cfg, toolarge |-> TooLarge(cfg), ntrain |-> NTrain(cfg), ntest |-> NTest(cfg)]))

(* the smoothing law on its own: any sequence of batch denominators        *)
SInit == /\ \E a \in Alphas : cfg = [alpha |-> a] /\ phase = "smooth" /\ steps = 0 /\ hist = <<>> /\ tested = FALSE
         /\ den = <<0, 1>> /\ corr = <<>> /\ tid = 0 /\ l = 0 /\ bad = "" /\ trids = {} /\ teids = {}
SNext == /\ steps < MaxSteps
         /\ \E b \in {<<1, 2>>, <<1, 1>>, <<3, 1>>} :
              /\ hist' = Append(hist, b) /\ den' = Smooth(cfg.alpha, den, b)
              /\ corr' = Append(corr, QDiv(b, den'))
         /\ steps' = steps + 1 /\ UNCHANGED <<cfg, phase, tested, tid, l, bad, trids, teids>>
SmoothSpec == SInit /\ [][SNext]_vars
(* D_t is at most the largest batch denominator and at least alpha times the current one *)
SmoothLaws == phase = "smooth" /\ steps > 0 =>
   /\ \E i \in 1..steps : QLeq(den, hist[i])
   /\ QLeq(QMul(cfg.alpha, hist[steps]), den)
   /\ QLeq(corr[steps], QInv(cfg.alpha))
   /\ corr[1] = QInv(cfg.alpha)
   \* with constant denominators: D_t = (1 - (1-alpha)^t) b
   /\ (\A i \in 1..steps : hist[i] = hist[1]) =>
        den = QMul(QSub(<<1, 1>>, QPow(QSub(<<1, 1>>, cfg.alpha), steps)), hist[1])

(*--------------------------- trace validation ---------------------------*)
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tid]
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ cfg = Traces[tid].cfg /\ steps = 0 /\ hist = <<>>
             /\ tested = FALSE /\ phase = "trace" /\ den = <<0, 1>> /\ corr = <<>> /\ trids = {} /\ teids = {}
SetOf(s) == {s[i] : i \in 1..Len(s)}
CheckTrain(e) ==
   IF TooLarge(cfg) THEN "no training when the batch is larger than the training set"
   ELSE IF DueTest THEN "the test objective is evaluated after each multiple of test_every_n_steps"
   ELSE IF Stop THEN "training stops right after the second test evaluation without a new best"
   ELSE IF steps = cfg.max THEN "training stops at max_n_steps"
   ELSE IF e.w # steps THEN "exactly one optimiser update per step"
   ELSE IF Len(e.xs) # cfg.batch \/ Cardinality(SetOf(e.xs)) # cfg.batch THEN "a batch of batch_size distinct training pairs"
   ELSE IF Len(e.us) # cfg.batch \/ Cardinality(SetOf(e.us)) # cfg.batch THEN "as many distinct Y values for the second term"
   ELSE ""
CheckTest(e) ==
   IF ~DueTest THEN "the test objective is evaluated only after multiples of test_every_n_steps"
   ELSE IF e.w # steps THEN "the test objective is evaluated with the current critic"
   ELSE IF Len(e.xs) # NTest(cfg) \/ Cardinality(SetOf(e.xs)) # NTest(cfg) THEN "the test objective is evaluated on the whole test set"
   ELSE IF SetOf(e.us) # SetOf(e.xs) \/ Len(e.us) # NTest(cfg) THEN "test Y values are re-shuffled, each used once"
   ELSE IF teids # {} /\ SetOf(e.xs) # teids THEN "the test set is the same at every evaluation"
   ELSE ""
CheckEnd ==
   LET r == T.res IN
   IF TooLarge(cfg) THEN
        IF ~r.nan \/ ~r.toolarge THEN "NaN and the flag when the batch is larger than the training set"
        ELSE IF r.critic THEN "no critic when the batch is larger than the training set" ELSE ""
   ELSE IF DueTest THEN "the test objective is evaluated after each multiple of test_every_n_steps"
   ELSE IF ~Stop /\ steps < cfg.max THEN "training goes on until max_n_steps or early stopping"
   ELSE IF r.toolarge THEN "no flag when the batch fits"
   ELSE IF r.nan # (hist = <<>>) THEN "the estimate is NaN only without test evaluations"
   ELSE IF ~r.nan /\ r.best # TL!MaxOf(TL!Vals(hist)) THEN "the estimate is the best test value"
   ELSE IF r.hist # hist THEN "the history lists (step, value) of all test evaluations"
   ELSE IF r.steps # steps THEN "the reported number of steps is the number performed"
   ELSE IF ~r.critic THEN "a trained critic is available after training"
   ELSE IF cfg.split # NoSplit /\ trids \cap teids # {} THEN "training and test data are disjoint"
   ELSE IF Cardinality(trids) > NTrain(cfg) THEN "training data has the requested size"
   ELSE IF T.cover /\ cfg.split # NoSplit /\ teids # {} /\ trids \cup teids # 1..cfg.n THEN "training and test data cover the sample"
   ELSE IF T.cover /\ Cardinality(trids) # NTrain(cfg) THEN "the whole training set is used"
   ELSE ""
TStep == /\ bad = "" /\ l <= Len(T.ev)
         /\ LET e == T.ev[l]
                c == IF e.k = "train" THEN CheckTrain(e) ELSE CheckTest(e)
            IN IF c # "" THEN bad' = c /\ UNCHANGED <<l, steps, hist, tested, den, corr, trids, teids>>
               ELSE /\ l' = l + 1 /\ bad' = ""
                    /\ IF e.k = "train"
                       THEN /\ steps' = steps + 1 /\ tested' = FALSE
                            /\ trids' = trids \cup SetOf(e.xs) \cup SetOf(e.us)
                            /\ IF steps < T.exact
                               THEN LET b == BatchDen(e.xs, e.us)
                                        d == Smooth(cfg.alpha, den, b)
                                    IN den' = d /\ corr' = Append(corr, QDiv(b, d))
                               ELSE UNCHANGED <<den, corr>>
                            /\ UNCHANGED <<hist, teids>>
                       ELSE hist' = Append(hist, <<steps, e.rank>>) /\ tested' = TRUE /\ teids' = SetOf(e.xs)
                            /\ UNCHANGED <<steps, trids, den, corr>>
         /\ UNCHANGED <<cfg, phase, tid>>
TEnd == /\ bad = "" /\ l = Len(T.ev) + 1 /\ bad' = CheckEnd /\ l' = l + 1
        /\ UNCHANGED <<cfg, phase, steps, hist, tested, den, corr, tid, trids, teids>>
TraceSpec == TraceInit /\ [][TStep \/ TEnd]_vars
Report == (bad # "" \/ l > Len(T.ev) + 1) =>
    PrintT("@@" \o ToJson([tid |-> tid, ok |-> bad = "", at |-> l, clause |-> bad, corr |-> corr]))
=============================================================================
