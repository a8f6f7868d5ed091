----------------------------- MODULE SampleHist -----------------------------
(***************************************************************************)
(* Histories of calls on equal samplers.  Sampling is a function of (n,    *)
(* seed): the memo is the only state, shared by all objects, and nothing   *)
(* else (other calls, global random state, the mutual information) has an  *)
(* effect.  Spec generates call scripts; TraceSpec validates recordings.   *)
(***************************************************************************)
EXTENDS Num, Json, IOUtils
CONSTANTS Ns, Seeds, MaxLen
VARIABLES script, tid, l, memo, mi, bad
tvars == <<script, tid, l, memo, mi, bad>>
Ops == [op : {"sample"}, obj : {1, 2}, n : Ns, seed : Seeds, form : {"int", "npint", "key"}]
       \cup [op : {"mi", "dims", "disturb", "other"}, obj : {1, 2}]
       \* many draws with seeds base, base + step, ...: no two of them may coincide
       \cup [op : {"fan"}, obj : {1, 2}, n : Ns, seed : {0, 3}, step : {1, 256, 1000, 65536, 10000019}, form : {"int", "key"}]
Init == script = <<>> /\ tid = 0 /\ l = 0 /\ memo = {} /\ mi = "" /\ bad = ""
Kind == {"sample", "sample2", "mi", "dims", "disturb", "other", "fan"}   \* sampling twice as likely
Pick == /\ Len(script) < MaxLen /\ bad = "" /\ l = 0
        /\ bad' \in Kind /\ UNCHANGED <<script, tid, l, memo, mi>>
Call == /\ bad # ""
        /\ \E o \in Ops : o.op = (IF bad = "sample2" THEN "sample" ELSE bad) /\ script' = Append(script, o)
        /\ bad' = "" /\ UNCHANGED <<tid, l, memo, mi>>
Finish == /\ Len(script) = MaxLen /\ l = 0 /\ l' = 1 /\ UNCHANGED <<script, tid, memo, mi, bad>>
Next == Pick \/ Call \/ Finish
Spec == Init /\ [][Next]_tvars
Emit == l = 1 => PrintT("@@" \o ToJson([script |-> script]))

(*---------------------------- trace validation --------------------------*)
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tid]
TraceInit == script = <<>> /\ tid \in 1..Len(Traces) /\ l = 1 /\ memo = {} /\ mi = "" /\ bad = ""
(* a key is the same source of randomness as its integer, where the sampler says so *)
Name(e) == <<e.n, e.seed, IF e.form = "key" /\ ~T.keyeq THEN "key" ELSE "int">>
Check(e) ==
  CASE e.op = "sample" ->
         IF e.shape # <<e.n, T.dx, e.n, T.dy>> THEN "shape is (n, dim_x), (n, dim_y)"
         ELSE IF ~e.finite THEN "all values are finite"
         ELSE IF \E m \in memo : m[1] = Name(e) /\ m[2] # e.digest THEN "same n and seed give the same sample"
         ELSE IF \E m \in memo : m[1][1] = e.n /\ m[1][3] = Name(e)[3] /\ m[1][2] # e.seed /\ m[2] = e.digest
              THEN "different seeds give different samples"
         ELSE ""
    [] e.op = "fan" ->
         IF \E i, j \in 1..Len(e.digests) : i < j /\ e.digests[i] = e.digests[j] THEN "different seeds give different samples"
         ELSE IF \E m \in memo, i \in 1..Len(e.digests) :
                   m[1] = Name([n |-> e.n, seed |-> e.seed + (i - 1) * e.step, form |-> e.form]) /\ m[2] # e.digests[i]
              THEN "same n and seed give the same sample"
         ELSE ""
    [] e.op = "mi" -> IF mi # "" /\ mi # e.digest THEN "mutual information changed" ELSE ""
    [] e.op = "dims" -> IF e.dims # <<T.dx, T.dy>> THEN "dimensions changed" ELSE ""
    [] OTHER -> ""
Step == /\ bad = "" /\ l <= Len(T.ev)
        /\ LET e == T.ev[l]
               c == Check(e)
           IN  IF c # "" THEN bad' = c /\ UNCHANGED <<memo, mi, l>>
               ELSE /\ l' = l + 1 /\ bad' = ""
                    /\ memo' = IF e.op = "sample" THEN memo \cup {<<Name(e), e.digest>>}
                             ELSE IF e.op = "fan"
                                  THEN memo \cup {<<Name([n |-> e.n, seed |-> e.seed + (i - 1) * e.step, form |-> e.form]), e.digests[i]>> :
                                                    i \in {j \in 1..Len(e.digests) : j <= 3}}
                             ELSE memo
                    /\ mi' = IF e.op = "mi" THEN e.digest ELSE mi
        /\ UNCHANGED <<script, tid>>
TraceSpec == TraceInit /\ [][Step]_tvars
Report == (bad # "" \/ l > Len(T.ev)) =>
    PrintT("@@" \o ToJson([tid |-> tid, ok |-> bad = "", at |-> l, clause |-> bad]))
=============================================================================
