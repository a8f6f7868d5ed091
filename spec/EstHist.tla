------------------------------ MODULE EstHist ------------------------------
(***************************************************************************)
(* Histories of calls on estimator objects.  Estimation is an uninterpreted*)
(* function of (configuration, data set): the memo is the only thing shared *)
(* by all objects.  An object itself remembers only which data set it was   *)
(* fitted (KSG) or trained (neural) on last; predictions and critics are    *)
(* functions of the configuration and that data set.  Failed calls, other   *)
(* objects, returned values changed by the caller, buffers overwritten by   *)
(* the caller and global random state have no effect.                       *)
(* Spec generates scripts (exhaustively or by simulation); TraceSpec decides*)
(* recordings of the real estimators.                                       *)
(***************************************************************************)
EXTENDS Num, Json, IOUtils
CONSTANTS Kinds,      \* operations the class has: "call", "fit", "info", "predict", "critic", "params", ...
          NData, NCfg, MaxLen
VARIABLES script, cfgs, pick, tid, l, fitted, memo, bad
vars == <<script, cfgs, pick, tid, l, fitted, memo, bad>>
Objs == 1..3                         \* 1 and 2 share a configuration, 3 has another one
Forms == {"fresh", "buffer", "readonly", "list"}
NoPick == [op |-> "", obj |-> 0]
Calls == {"est", "fit", "info"}

Init == /\ script = <<>> /\ pick = NoPick /\ tid = 0 /\ l = 0 /\ memo = {} /\ bad = ""
        /\ fitted = [o \in Objs |-> 0]
        /\ cfgs \in {<<a, b>> : a, b \in 1..NCfg} /\ cfgs[1] # cfgs[2]
PickOp == /\ Len(script) < MaxLen /\ pick.op = "" /\ l = 0
          /\ \E k \in Kinds : pick' = [op |-> k, obj |-> 0]
          /\ UNCHANGED <<script, cfgs, tid, l, fitted, memo, bad>>
PickObj == /\ pick.op # "" /\ pick.obj = 0
           /\ \E o \in Objs : pick' = [pick EXCEPT !.obj = o]
           /\ UNCHANGED <<script, cfgs, tid, l, fitted, memo, bad>>
Base(k) == IF k \in {"est2"} THEN "est" ELSE k
Add == /\ pick.obj # 0
       /\ IF Base(pick.op) \in Calls
          THEN \E d \in 1..NData, f \in Forms :
                  script' = Append(script, [op |-> Base(pick.op), obj |-> pick.obj, data |-> d, form |-> f])
          ELSE script' = Append(script, [op |-> pick.op, obj |-> pick.obj, data |-> 0, form |-> ""])
       /\ pick' = NoPick /\ UNCHANGED <<cfgs, tid, l, fitted, memo, bad>>
Finish == /\ Len(script) = MaxLen /\ l = 0 /\ l' = 1 /\ UNCHANGED <<script, cfgs, pick, tid, fitted, memo, bad>>
Next == PickOp \/ PickObj \/ Add \/ Finish
Spec == Init /\ [][Next]_vars
Emit == l = 1 => PrintT("@@" \o ToJson([script |-> script, cfgs |-> cfgs]))

(*---------------------------- trace validation --------------------------*)
(* A trace records, for each operation, what was observed; values are named *)
(* by integers (equal values have equal names).                             *)
(*   T.refuse   data sets that have to be refused                           *)
(*   T.idle     data sets on which an answer is given without training      *)
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tid]
Range0(s) == {s[i] : i \in 1..Len(s)}
Conf(o) == IF o = 3 THEN T.cfgs[2] ELSE T.cfgs[1]
Known(k, o, d) == {m[4] : m \in {m \in memo : m[1] = k /\ m[2] = Conf(o) /\ m[3] = d}}
Clash(k, o, d, v) == \E w \in Known(k, o, d) : w # v
CheckCall(e) ==
    IF ~e.same THEN "input arrays are not modified"
    ELSE IF e.ok /\ e.data \in Range0(T.refuse) THEN "a data set of different lengths is refused"
    ELSE IF Clash("ok", e.obj, e.data, IF e.ok THEN 1 ELSE 0)
         THEN "whether a data set is accepted depends on earlier calls"
    ELSE IF e.ok /\ e.op # "fit" /\ Clash("mi", e.obj, e.data, e.val)
         THEN "the estimate depends on earlier calls"
    ELSE IF e.ok /\ e.op = "info" /\ Clash("info", e.obj, e.data, e.info)
         THEN "the additional information depends on earlier calls"
    ELSE ""
Check(e) ==
    CASE e.op \in Calls -> CheckCall(e)
      [] e.op = "predict" ->
            IF fitted[e.obj] = 0
            THEN IF e.outcome = "notfitted" THEN "" ELSE "predictions before the first successful fit"
            ELSE IF e.outcome # "ok" THEN "predictions are unavailable after a fit"
            ELSE IF Clash("pred", e.obj, fitted[e.obj], e.val) THEN "predictions are those of the last successful fit"
            ELSE ""
      [] e.op = "critic" ->
            IF ~e.held THEN "a critic obtained earlier changed"
            ELSE IF fitted[e.obj] = 0
            THEN IF e.none THEN "" ELSE "critic before the first training"
            ELSE IF e.none THEN "no critic after training"
            ELSE IF Clash("critic", e.obj, fitted[e.obj], e.val) THEN "the critic is that of the last training"
            ELSE ""
      [] e.op = "params" -> IF e.asgiven THEN "" ELSE "parameters are the ones of the construction"
      [] OTHER -> ""
Learn(e) ==
    CASE e.op \in Calls ->
            {<<"ok", Conf(e.obj), e.data, IF e.ok THEN 1 ELSE 0>>}
            \cup (IF e.ok /\ e.op # "fit" THEN {<<"mi", Conf(e.obj), e.data, e.val>>} ELSE {})
            \cup (IF e.ok /\ e.op = "info" THEN {<<"info", Conf(e.obj), e.data, e.info>>} ELSE {})
      [] e.op = "predict" -> IF e.outcome = "ok" THEN {<<"pred", Conf(e.obj), fitted[e.obj], e.val>>} ELSE {}
      [] e.op = "critic" -> IF e.none THEN {} ELSE {<<"critic", Conf(e.obj), fitted[e.obj], e.val>>}
      [] OTHER -> {}
Refit(e) ==
    IF e.op \in Calls /\ e.ok /\ e.data \notin Range0(T.idle) THEN [fitted EXCEPT ![e.obj] = e.data]
    ELSE IF e.op = "new" THEN [fitted EXCEPT ![e.obj] = 0]
    ELSE fitted
TraceInit == /\ script = <<>> /\ cfgs = <<>> /\ pick = NoPick /\ tid \in 1..Len(Traces) /\ l = 1
             /\ memo = {} /\ bad = "" /\ fitted = [o \in Objs |-> 0]
Step == /\ bad = "" /\ l <= Len(T.ev)
        /\ LET e == T.ev[l]
               c == Check(e)
           IN  IF c # "" THEN bad' = c /\ UNCHANGED <<l, memo, fitted>>
               ELSE l' = l + 1 /\ bad' = "" /\ memo' = memo \cup Learn(e) /\ fitted' = Refit(e)
        /\ UNCHANGED <<script, cfgs, pick, tid>>
TraceSpec == TraceInit /\ [][Step]_vars
(* The memo is a function: this is what "nothing is carried over" means.    *)
Functional == \A m, k \in memo : (m[1] = k[1] /\ m[2] = k[2] /\ m[3] = k[3]) => m[4] = k[4]
Report == (bad # "" \/ l > Len(T.ev)) =>
    PrintT("@@" \o ToJson([tid |-> tid, ok |-> bad = "", at |-> l, clause |-> bad]))
=============================================================================
