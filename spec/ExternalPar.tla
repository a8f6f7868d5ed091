--------------------------- MODULE ExternalPar ---------------------------
(***************************************************************************)
(* Several estimates at once (threads), through one or several external    *)
(* estimators.  Each writes its own temporary file, starts its process,    *)
(* which reads the file only when the environment lets it, and returns.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Calls, Kinds, Shapes
VARIABLES kind, shape, file, proc, result, hist
vars == <<kind, shape, file, proc, result, hist>>
C == 1..Calls
(* file[c]: whose sample the file of call c holds (0: no file).  shape[c]: number of columns and rows. *)
Init == /\ kind \in Kinds /\ shape \in [C -> Shapes]
        /\ file = [c \in C |-> 0] /\ proc = [c \in C |-> "none"] /\ result = [c \in C |-> 0] /\ hist = <<>>
Begin(c) == /\ proc[c] = "none" /\ \A d \in C : d < c => proc[d] # "none"
            /\ file' = [file EXCEPT ![c] = c] /\ proc' = [proc EXCEPT ![c] = "waiting"]
            /\ hist' = Append(hist, <<"begin", c>>) /\ UNCHANGED <<kind, shape, result>>
Finish(c) == /\ proc[c] = "waiting"
             /\ result' = [result EXCEPT ![c] = file[c]]  \* the process answers with the sample it finds
             /\ proc' = [proc EXCEPT ![c] = "gone"] /\ file' = [file EXCEPT ![c] = 0]
             /\ hist' = Append(hist, <<"finish", c>>) /\ UNCHANGED <<kind, shape>>
Next == \E c \in C : Begin(c) \/ Finish(c)
Spec == Init /\ [][Next]_vars
Over == \A c \in C : proc[c] = "gone"
Laws == /\ \A c \in C : proc[c] = "waiting" <=> file[c] = c
        /\ \A c \in C : proc[c] = "gone" => result[c] = c
        /\ Over => file = [c \in C |-> 0]
Emit == Over => PrintT("@@" \o ToJson([kind |-> kind, shape |-> [c \in C |-> shape[c]], hist |-> hist, result |-> [c \in C |-> result[c]]]))
=============================================================================
