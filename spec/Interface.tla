----------------------------- MODULE Interface -----------------------------
(***************************************************************************)
(* The runtime interface of estimators.                                     *)
(*                                                                          *)
(* Part 1 (OptSpec, exhaustive): constructor options, each omitted or given,*)
(* and the effective parameters they stand for.                             *)
(*                                                                          *)
(* Part 2 (CallSpec): calls estimate / estimate_with_info on data sets held *)
(* in containers.  A data set is an abstract id; its container is invisible *)
(* to the answer.  For a wrapped function the specification keeps the log of*)
(* calls the function receives.  TraceSpec decides recordings.              *)
(***************************************************************************)
EXTENDS Num, Json, IOUtils
CONSTANTS Classes, MaxLen, NData
VARIABLES opt, eff, script, pick, tid, l, memo, bad
vars == <<opt, eff, script, pick, tid, l, memo, bad>>
rest == <<script, pick, tid, memo, bad>>

None == "omitted"
Or(v, d) == IF v = None THEN d ELSE v

(*------------------------------- options --------------------------------*)
(* values are typed text: i6, f0.5, l3,1, bT, null                          *)
Metrics == {"euclidean", "manhattan", "chebyshev"}
KSGOpts == [neighborhoods : {None, "l3,1"}, standardize : {None, "bT", "bF"}, metric_x : Metrics \cup {None}, metric_y : Metrics \cup {None}]
KSGEff(o) == [neighborhoods |-> Or(o.neighborhoods, "l5,10"), standardize |-> Or(o.standardize, "bT"),
              metric_x |-> Or(o.metric_x, "euclidean"), metric_y |-> Or(o.metric_y, Or(o.metric_x, "euclidean"))]
HistOpts == [n_bins_x : {None, "i2", "i3", "i7"}, n_bins_y : {None, "i1", "i2", "i4"}, standardize : {None, "bT", "bF"}]
HistEff(o) == [n_bins_x |-> Or(o.n_bins_x, "i5"), n_bins_y |-> Or(o.n_bins_y, Or(o.n_bins_x, "i5")), standardize |-> Or(o.standardize, "bT")]
Kernels == {"gaussian", "exponential"}
Bands == {"silverman", "f0.25"}
KDEOpts == [kernel_xy : Kernels \cup {None}, kernel_x : {None, "gaussian", "tophat"}, kernel_y : {None, "exponential", "epanechnikov"},
            bandwidth_xy : Bands \cup {None}, bandwidth_x : {None, "scott", "f0.5"}, bandwidth_y : {None, "silverman", "f2.0"},
            standardize : {None, "bF"}]
KDEEff(o) == LET k == Or(o.kernel_xy, "tophat")   b == Or(o.bandwidth_xy, "scott")
             IN [kernel_xy |-> k, kernel_x |-> Or(o.kernel_x, k), kernel_y |-> Or(o.kernel_y, k),
                 bandwidth_xy |-> b, bandwidth_x |-> Or(o.bandwidth_x, b), bandwidth_y |-> Or(o.bandwidth_y, b),
                 standardize |-> Or(o.standardize, "bT")]
NeuralOpts == [batch_size : {None, "i6"}, max_n_steps : {None, "i3"}, train_test_split : {None, "null", "f0.7"}, test_every_n_steps : {None, "i2"},
               learning_rate : {None, "f0.02"}, hidden_layers : {None, "l3", "l4,2"}, standardize : {None, "bF"}, seed : {None, "i5"}]
NeuralEff(o) == [batch_size |-> Or(o.batch_size, "i256"), max_n_steps |-> Or(o.max_n_steps, "i10000"),
                 train_test_split |-> Or(o.train_test_split, "f0.5"), test_every_n_steps |-> Or(o.test_every_n_steps, "i250"),
                 learning_rate |-> Or(o.learning_rate, "f0.1"), hidden_layers |-> Or(o.hidden_layers, "l16,8"),
                 standardize |-> Or(o.standardize, "bT"), seed |-> Or(o.seed, "i42")]
MineOpts == [smoothing_alpha : {None, "f0.5"}, train_test_split : {None, "null", "f0.7"}, hidden_layers : {None, "l3"}, batch_size : {None, "i6"}, seed : {None, "i5"}]
MineEff(o) == [smoothing_alpha |-> Or(o.smoothing_alpha, "f0.9"), train_test_split |-> Or(o.train_test_split, "f0.5"),
               hidden_layers |-> Or(o.hidden_layers, "l16,8"), batch_size |-> Or(o.batch_size, "i256"), seed |-> Or(o.seed, "i42"),
               max_n_steps |-> "i10000", test_every_n_steps |-> "i250", learning_rate |-> "f0.1", standardize |-> "bT"]
Options == [KSG |-> KSGOpts, Histogram |-> HistOpts, KDE |-> KDEOpts, Neural |-> NeuralOpts, MINE |-> MineOpts]
Effective(c, o) == CASE c = "KSG" -> KSGEff(o) [] c = "Histogram" -> HistEff(o) [] c = "KDE" -> KDEEff(o)
                     [] c = "Neural" -> NeuralEff(o) [] c = "MINE" -> MineEff(o)
OptInit == /\ script = <<>> /\ pick = <<>> /\ tid = 0 /\ l = 0 /\ memo = {} /\ bad = ""
           /\ \E c \in Classes : \E o \in Options[c] : opt = [cls |-> c, given |-> o] /\ eff = [none |-> TRUE]
Resolve == l = 0 /\ l' = 1 /\ eff' = Effective(opt.cls, opt.given) /\ UNCHANGED <<opt, rest>>
OptSpec == OptInit /\ [][Resolve]_vars
OptEmit == l = 1 => PrintT("@@" \o ToJson([cls |-> opt.cls, given |-> opt.given, eff |-> eff]))
(* resolving the effective values again changes nothing, and nothing is omitted *)
OptLaws == l = 1 => /\ Effective(opt.cls, [k \in DOMAIN opt.given |-> eff[k]]) = eff
                    /\ \A k \in DOMAIN eff : eff[k] # None
                    /\ \A k \in DOMAIN opt.given : opt.given[k] # None => eff[k] = opt.given[k]

(*-------------------------------- calls ---------------------------------*)
Forms == {"list", "tuple", "rows", "int64", "int32", "uint16", "float32", "float64", "fortran", "strided", "readonly", "jaxfloat", "jaxint"}
Behaviours == {"float", "numpy", "int", "nan", "inf", "array0", "text", "raise"}
CallInit == /\ opt = <<>> /\ eff = <<>> /\ script = <<>> /\ pick = <<>> /\ tid = 0 /\ l = 0 /\ memo = {} /\ bad = ""
P1 == /\ Len(script) < MaxLen /\ pick = <<>> /\ l = 0
      /\ \E m \in {"est", "info"}, d \in 1..NData : pick' = <<m, d>> /\ UNCHANGED <<opt, eff, script, tid, l, memo, bad>>
P2 == /\ Len(pick) = 2 /\ \E f \in Forms : pick' = Append(pick, f) /\ UNCHANGED <<opt, eff, script, tid, l, memo, bad>>
P3 == /\ Len(pick) = 3 /\ \E f \in Forms : pick' = Append(pick, f) /\ UNCHANGED <<opt, eff, script, tid, l, memo, bad>>
P4 == /\ Len(pick) = 4
      /\ \E b \in Behaviours : script' = Append(script, [op |-> pick[1], data |-> pick[2], fx |-> pick[3], fy |-> pick[4], beh |-> b])
      /\ pick' = <<>> /\ UNCHANGED <<opt, eff, tid, l, memo, bad>>
Finish == /\ Len(script) = MaxLen /\ l = 0 /\ l' = 1 /\ UNCHANGED <<opt, eff, script, pick, tid, memo, bad>>
CallSpec == CallInit /\ [][P1 \/ P2 \/ P3 \/ P4 \/ Finish]_vars
CallEmit == l = 1 => PrintT("@@" \o ToJson([script |-> script]))

(*---------------------------- trace validation --------------------------*)
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tid]
Range0(s) == {s[i] : i \in 1..Len(s)}
(* what a wrapped function gets: one call, NumPy arrays, X then Y           *)
WrapCheck(e) ==
    IF Len(e.seen) # 1 THEN "a wrapped function is called exactly once per estimate"
    ELSE IF e.seen[1] # [tx |-> "ndarray", ty |-> "ndarray", x |-> e.data, y |-> e.data, side |-> "xy"]
         THEN "a wrapped function gets NumPy arrays with exactly the data, X first"
    ELSE IF e.beh = "raise" THEN (IF e.outcome = "own error" THEN "" ELSE "the function's error is not passed on")
    ELSE IF e.op = "info" /\ e.beh = "text" THEN ""        \* not a number: outside the interface
    ELSE IF e.outcome # "ok" THEN "an answer of the function is lost"
    ELSE IF e.op = "est" /\ ~e.unchanged THEN "the function's value is returned unchanged"
    ELSE IF e.op = "info" /\ ~e.unchanged THEN "mi_estimate is the function's value"
    ELSE IF ~e.params THEN "the parameters object given is returned as is"
    ELSE ""
Check(e) ==
    IF ~e.same THEN "input arrays are not modified"
    ELSE IF T.wrapped THEN WrapCheck(e)
    ELSE IF e.data \in Range0(T.refuse)
         THEN (IF e.outcome = "ok" THEN "arrays of different lengths are refused" ELSE "")
    ELSE IF e.outcome # "ok" THEN "data in this container is not accepted"
    ELSE IF \E m \in memo : m[1] = e.data /\ m[2] # e.val
         THEN "the estimate depends on the container, or differs between estimate and estimate_with_info"
    ELSE ""
TraceInit == /\ opt = <<>> /\ eff = <<>> /\ script = <<>> /\ pick = <<>> /\ tid \in 1..Len(Traces) /\ l = 1 /\ memo = {} /\ bad = ""
Step == /\ bad = "" /\ l <= Len(T.ev)
        /\ LET e == T.ev[l]
               c == Check(e)
           IN IF c # "" THEN bad' = c /\ UNCHANGED <<l, memo>>
              ELSE l' = l + 1 /\ bad' = "" /\ memo' = memo \cup {<<e.data, e.val>>}
        /\ UNCHANGED <<opt, eff, script, pick, tid>>
TraceSpec == TraceInit /\ [][Step]_vars
Report == (bad # "" \/ l > Len(T.ev)) =>
    PrintT("@@" \o ToJson([tid |-> tid, ok |-> bad = "", at |-> l, clause |-> bad]))
=============================================================================
