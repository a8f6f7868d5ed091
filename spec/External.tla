----------------------------- MODULE External -----------------------------
(***************************************************************************)
(* External estimators: construction with hyperparameters, then a history  *)
(* of estimates.  Each estimate writes the sample to a temporary file (or  *)
(* uses the given file), runs one process and interprets what it does.     *)
(* The state holds the temporary files on disk and the processes started.  *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS MaxCalls, MaxDim
VARIABLES est, opts, phase, temp, procs, call, log
vars == <<est, opts, phase, temp, procs, call, log>>

Ests == {"RKSG", "RLNN", "RBNSL", "JuliaKSG", "JuliaHistogram", "JuliaTransfer", "JuliaKernel"}
Pos == {"1", "2", "3", "5", "7", "10", "30", "50"}
NonPos == {"0", "-1", "-10"}
(* hyperparameters in the order of construction: name, option of the script, default, good and bad values *)
Opt(n, f, d, g, b) == [name |-> n, flag |-> f, default |-> d, good |-> g, bad |-> b]
Params(e) ==
   CASE e = "RKSG" -> <<Opt("variant", "method", "1", {"1", "2"}, {"0", "3", "-1"}), Opt("neighbors", "neighbors", "10", Pos, NonPos)>>
     [] e = "RLNN" -> <<Opt("k", "neighbors", "5", Pos, NonPos), Opt("truncation", "truncation", "30", Pos, NonPos)>>
     [] e = "RBNSL" -> <<Opt("proc", "proc", "10", {"0", "1", "2", "10"}, {"-1", "3", "5", "9", "11"})>>
     [] e = "JuliaKSG" -> <<Opt("variant", "estimator", "1", {"1", "2"}, {"0", "3", "-1"}), Opt("neighbors", "neighbors", "10", Pos, NonPos)>>
     [] e = "JuliaHistogram" -> <<Opt("bins", "bins", "10", Pos \ {"1"}, NonPos \cup {"1"})>>
     [] e = "JuliaTransfer" -> <<Opt("bins", "bins", "10", Pos \ {"1"}, NonPos \cup {"1"})>>
     [] e = "JuliaKernel" -> <<Opt("bandwidth", "bandwidth", "1.0", {"0.25", "1.0", "2.5", "100.0", "0.00012345", "12345.678901"}, {"0.0", "-1.0", "-0.25"})>>
Julia(e) == e \in {"JuliaKSG", "JuliaHistogram", "JuliaTransfer", "JuliaKernel"}
Fixed(e) == CASE e = "RLNN" -> << <<"method", "LNN">> >> [] e = "RBNSL" -> << <<"method", "BNSL">> >>
              [] e = "JuliaHistogram" -> << <<"estimator", "Histogram">> >> [] e = "JuliaTransfer" -> << <<"estimator", "Transfer">> >>
              [] e = "JuliaKernel" -> << <<"estimator", "Kernel">> >> [] OTHER -> <<>>
Value(i) == IF opts[i] = "" THEN Params(est)[i].default ELSE opts[i]
OptionOf(i) == LET p == Params(est)[i] IN
               <<p.flag, IF p.name = "variant" THEN "KSG" \o Value(i) ELSE Value(i)>>
Options == Fixed(est) \o [i \in 1..Len(Params(est)) |-> OptionOf(i)]
Valid == \A i \in 1..Len(opts) : Value(i) \in Params(est)[i].good
Argv(c) == [exe |-> IF Julia(est) THEN "julia" ELSE "Rscript", script |-> IF Julia(est) THEN "mi_estimator.jl" ELSE "rmi.R",
            dims |-> <<c.dx, c.dy>>, options |-> Options]

(* What the process may do.  num: what it prints on its output parsed as a
   number (in quarters; the harness prints 0.25 num in some notation).      *)
Behaviours == [kind : {"value"}, num : {-2, 0, 1, 2, 7}, style : {"plain", "spaces", "exponent", "newlines", "nonewline"}]
         \cup [kind : {"text"}, num : {1}, style : {"", "NA?", "0.25 nats", "0.25 0.5", "[1] 0.25", "Error: no", "0,25", "bytes after", "bytes before", "bytes only", "nul"}]
         \cup [kind : {"stderr"}, num : {2}, style : {"warning after", "warning before", "only stderr"}]
         \cup [kind : {"exit"}, num : {1}, style : {"1", "2", "3", "77", "255"}]
         \cup [kind : {"signal"}, num : {1}, style : {"KILL", "TERM", "SEGV"}]
         \cup [kind : {"missing"}, num : {0}, style : {"missing"}]
Outcome(b) == CASE b.kind = "value" -> [ok |-> TRUE, num |-> b.num, output |-> FALSE]
                [] b.kind \in {"exit", "signal"} -> [ok |-> FALSE, num |-> 0, output |-> TRUE]
                [] OTHER -> [ok |-> FALSE, num |-> 0, output |-> FALSE]

Init == /\ est \in Ests /\ opts = <<>> /\ phase = "opts" /\ temp = {} /\ procs = 0 /\ call = <<>> /\ log = <<>>
PickOpt == /\ phase = "opts" /\ Len(opts) < Len(Params(est))
           /\ \E k \in {"default", "good", "good2", "bad"} :
                LET p == Params(est)[Len(opts) + 1] IN
                \E v \in (IF k = "default" THEN {""} ELSE IF k = "bad" THEN (IF RandomElement(1..4) = 1 THEN p.bad ELSE {""}) ELSE p.good) : opts' = Append(opts, v)
           /\ UNCHANGED <<est, phase, temp, procs, call, log>>
Construct == /\ phase = "opts" /\ Len(opts) = Len(Params(est))
             /\ phase' = IF Valid THEN "idle" ELSE "done"       \* refused: nothing else happens
             /\ UNCHANGED <<est, opts, temp, procs, call, log>>
Call == /\ phase = "idle" /\ Len(log) < MaxCalls
        /\ \E mode \in {"arrays", "info", "path", "relative", "mismatch", "onedim"}, dx \in 1..MaxDim, dy \in 1..MaxDim :
              call' = [mode |-> mode, dx |-> dx, dy |-> dy, b |-> <<>>]
        /\ phase' = "write" /\ UNCHANGED <<est, opts, temp, procs, log>>
(* the sample is on disk before the process starts; malformed samples are refused first *)
Write == /\ phase = "write"
         /\ IF call.mode \in {"mismatch", "onedim"}
            THEN /\ log' = Append(log, [call |-> call, started |-> FALSE, argv |-> <<>>, outcome |-> [ok |-> FALSE, num |-> 0, output |-> FALSE]])
                 /\ phase' = "idle" /\ UNCHANGED temp
            ELSE /\ temp' = IF call.mode \in {"arrays", "info"} THEN {procs} ELSE {}
                 /\ phase' = "run" /\ UNCHANGED log
         /\ UNCHANGED <<est, opts, procs, call>>
Start == /\ phase = "run"
         /\ \E kind \in {"value", "value2", "text", "stderr", "exit", "signal", "missing"} :
              \E b \in {x \in Behaviours : x.kind = (IF kind = "value2" THEN "value" ELSE kind)} : call' = [call EXCEPT !.b = b]
         /\ procs' = procs + (IF call'.b.kind = "missing" THEN 0 ELSE 1)
         /\ phase' = "wait" /\ UNCHANGED <<est, opts, temp, log>>
Exit == /\ phase = "wait"
        /\ log' = Append(log, [call |-> call, started |-> call.b.kind # "missing", argv |-> Argv(call), outcome |-> Outcome(call.b)])
        /\ temp' = {} /\ phase' = "idle" /\ UNCHANGED <<est, opts, procs, call>>
End == /\ phase = "idle" /\ Len(log) = MaxCalls /\ phase' = "done" /\ UNCHANGED <<est, opts, temp, procs, call, log>>
Next == PickOpt \/ Construct \/ Call \/ Write \/ Start \/ Exit \/ End
Spec == Init /\ [][Next]_vars
Started(l) == Cardinality({k \in 1..Len(l) : l[k].started})
Laws == /\ phase \in {"idle", "done"} => /\ temp = {} /\ procs = Started(log)
        /\ Len(log) > 0 => Valid
        /\ phase = "wait" /\ call.mode \in {"arrays", "info"} => temp # {}
Emit == phase = "done" => PrintT("@@" \o ToJson([est |-> est, valid |-> Valid, log |-> log,
           names |-> [i \in 1..Len(opts) |-> <<Params(est)[i].name, opts[i], Value(i)>>]]))
=============================================================================
