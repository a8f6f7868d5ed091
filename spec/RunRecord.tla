----------------------------- MODULE RunRecord -----------------------------
(***************************************************************************)
(* Benchmark runs.  A run takes an estimator (in-memory or external), a     *)
(* sample file and the caller's information, and always yields a record.    *)
(* Dictionaries are functions from keys to values (0 = no such key).        *)
(* The caller may pass the same dictionary object to several runs.  The     *)
(* state keeps the caller's dictionaries and all records made so far; a run *)
(* adds one record and changes nothing else.                                *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS MaxRuns
VARIABLES dicts, pick, runs, records, l
vars == <<dicts, pick, runs, records, l>>
Keys == {"a", "b", "error"}
Dicts == [Keys -> 0..2]
Empty == [k \in Keys |-> 0]
Value(kind, mi, time, info) == [kind |-> kind, mi |-> mi, time |-> time, info |-> info, err |-> ""]
Outcomes ==
   [kind : {"value"}, mi : {"0.0", "0.75", "-0.5", "nan", "inf"}, time : {"none", "0.0", "2.5"}, err : {""}]
   \cup [kind : {"raise"}, mi : {""}, time : {""}, err : {"value error", "key error", "empty message", "assertion", "subprocess", "output number", "output none", "not an answer", "memory"}]
   \cup [kind : {"raise late"}, mi : {""}, time : {""}, err : {"value error"}]
Estimators == {"memory", "memory plain", "external"}
Files == {"small", "one row", "wide"}
Seeds == {"none", "0", "7"}
NoDict == "none"
Init == /\ dicts \in [{"d1", "d2"} -> Dicts] /\ pick = <<>> /\ runs = <<>> /\ records = <<>> /\ l = 0
PickOutcome == /\ pick = <<>> /\ Len(runs) < MaxRuns /\ l = 0 /\ \E o \in Outcomes : pick' = <<o>>
               /\ UNCHANGED <<dicts, runs, records, l>>
PickRun == /\ Len(pick) = 1
           /\ \E e \in Estimators, f \in Files, s \in Seeds : pick' = pick \o <<[est |-> e, file |-> f, seed |-> s]>>
           /\ UNCHANGED <<dicts, runs, records, l>>
PickInfo == /\ Len(pick) = 2
            /\ \E d \in {"d1", "d2", "fresh", "empty", NoDict}, own \in Dicts : pick' = pick \o <<d, own>>
            /\ UNCHANGED <<dicts, runs, records, l>>
NRows(f) == CASE f = "small" -> 5 [] f = "wide" -> 7 [] OTHER -> 1
Override(f, g) == [k \in Keys |-> IF g[k] # 0 THEN g[k] ELSE f[k]]
Caller(d, own) == IF d \in {"d1", "d2"} THEN dicts[d] ELSE IF d = "fresh" THEN own ELSE Empty
(* a plain estimator has only estimate(): no reported time, no information *)
Info(o, r, own) == IF o.kind # "value" \/ r.est = "memory plain" THEN Empty ELSE [k \in Keys |-> IF k = "b" THEN own["a"] ELSE IF k = "a" THEN own["b"] ELSE own["error"]]
Record(o, r, d, own) ==
   LET ok == o.kind = "value" IN
   [success |-> ok, mi |-> IF ok THEN o.mi ELSE "nan",
    time |-> IF ~ok THEN "nan" ELSE IF r.est = "memory plain" \/ o.time = "none" THEN "measured" ELSE o.time,
    rows |-> NRows(r.file), seed |-> r.seed,
    info |-> IF ok THEN Override(Caller(d, own), Info(o, r, own)) ELSE [Caller(d, own) EXCEPT !["error"] = 0],
    error |-> IF ok THEN "" ELSE o.err,
    output |-> ~ok /\ o.err \in {"subprocess", "output number", "output none"}]
Run == /\ Len(pick) = 4
       /\ LET o == pick[1]  r == pick[2]  d == pick[3]  own == pick[4] IN
          /\ runs' = Append(runs, [outcome |-> o, run |-> r, dict |-> d, own |-> own, caller |-> Caller(d, own), reported |-> Info(o, r, own)])
          /\ records' = Append(records, Record(o, r, d, own))
       /\ pick' = <<>> /\ UNCHANGED <<dicts, l>>
Finish == Len(runs) = MaxRuns /\ pick = <<>> /\ l = 0 /\ l' = 1 /\ UNCHANGED <<dicts, pick, runs, records>>
Next == PickOutcome \/ PickRun \/ PickInfo \/ Run \/ Finish
Spec == Init /\ [][Next]_vars
(* runs do not influence each other *)
Independent == [][dicts' = dicts /\ \A i \in 1..Len(records) : records'[i] = records[i]]_vars
Laws == \A i \in 1..Len(records) : records[i].success <=> records[i].error = ""
Emit == l = 1 => PrintT("@@" \o ToJson([dicts |-> dicts, runs |-> runs, records |-> records]))
=============================================================================
