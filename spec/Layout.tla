------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Figures with axes of fixed sizes.  Lengths are integers (eighths of an  *)
(* inch).  A request gives, for each direction, a scalar or a list of      *)
(* sizes, an optional count, margins and a scalar or list of gaps.  The     *)
(* specification lays the figure out cell by cell (one action per column    *)
(* and per row), or refuses the request.                                    *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS Sizes, Gaps, Margins, Counts, Lens
VARIABLES q, pick, xs, ys, done
vars == <<q, pick, xs, ys, done>>
None == -1
Dirs == {"x", "y"}
Empty == [sizes |-> <<>>, scalar |-> FALSE, count |-> None, gaps |-> <<>>, gscalar |-> FALSE, before |-> 0, after |-> 0]

(* a direction of the request is filled in step by step *)
Init == /\ q = [x |-> Empty, y |-> Empty] /\ pick = <<"x", 1>> /\ xs = <<>> /\ ys = <<>> /\ done = "build"
D == pick[1]
Set(r) == q' = [q EXCEPT ![D] = r]
Stay == UNCHANGED <<xs, ys, done>>
Shape == /\ done = "build" /\ pick[2] = 1
         /\ \E s \in {TRUE, FALSE}, c \in Counts \cup {None}, m \in Margins, k \in Margins, n \in Lens :
              Set([q[D] EXCEPT !.scalar = s, !.count = c, !.before = m, !.after = k, !.sizes = [i \in 1..(IF s THEN 1 ELSE n) |-> 0]])
         /\ pick' = <<D, 2>> /\ Stay
Fill == /\ done = "build" /\ pick[2] = 2
        /\ IF \E i \in 1..Len(q[D].sizes) : q[D].sizes[i] = 0
           THEN /\ \E v \in Sizes : LET i == CHOOSE i \in 1..Len(q[D].sizes) : q[D].sizes[i] = 0 /\ \A j \in 1..(i-1) : q[D].sizes[j] # 0
                                    IN Set([q[D] EXCEPT !.sizes[i] = v])
                /\ pick' = pick
           ELSE UNCHANGED q /\ pick' = <<D, 3>>
        /\ Stay
(* effective number of axes, or None when the request contradicts itself *)
Effective(r) == IF r.scalar THEN (IF r.count = None THEN 1 ELSE r.count)
                ELSE IF r.count # None /\ r.count # Len(r.sizes) THEN None ELSE Len(r.sizes)
GapShape == /\ done = "build" /\ pick[2] = 3
            /\ \E s \in {TRUE, FALSE}, n \in {0, 1, 2} :
                 LET e == Effective(q[D])
                     \* mostly the right number of gaps, sometimes one less or more
                     w == MaxI(0, (IF e = None THEN 1 ELSE e) - 1 + (IF n = 2 THEN 0 ELSE IF n = 1 THEN 1 ELSE -1))
                 IN Set([q[D] EXCEPT !.gscalar = s, !.gaps = [i \in 1..(IF s THEN 1 ELSE w) |-> None]])
            /\ pick' = <<D, 4>> /\ Stay
GapFill == /\ done = "build" /\ pick[2] = 4
           /\ IF \E i \in 1..Len(q[D].gaps) : q[D].gaps[i] = None
              THEN /\ \E v \in Gaps : LET i == CHOOSE i \in 1..Len(q[D].gaps) : q[D].gaps[i] = None /\ \A j \in 1..(i-1) : q[D].gaps[j] # None
                                      IN Set([q[D] EXCEPT !.gaps[i] = v])
                   /\ pick' = pick /\ Stay
              ELSE IF D = "x" THEN UNCHANGED q /\ pick' = <<"y", 1>> /\ Stay
              ELSE UNCHANGED q /\ pick' = <<"y", 5>> /\ done' = "lay" /\ UNCHANGED <<xs, ys>>

(*-------------------------------- layout ---------------------------------*)
N(d) == Effective(q[d])
SizeAt(r, i) == IF r.scalar THEN r.sizes[1] ELSE r.sizes[i]
GapAt(r, i) == IF r.gscalar THEN r.gaps[1] ELSE r.gaps[i]
Refused(d) == \/ N(d) = None \/ N(d) = 0
              \/ ~q[d].gscalar /\ Len(q[d].gaps) # N(d) - 1
(* cells <<start, size>> measured from the left (columns) or from the top (rows) *)
NextCell(d, cells) ==
    LET i == Len(cells) + 1
        start == IF i = 1 THEN q[d].before ELSE cells[i-1][1] + cells[i-1][2] + GapAt(q[d], i - 1)
    IN <<start, SizeAt(q[d], i)>>
Lay == /\ done = "lay"
       /\ IF Refused("x") \/ Refused("y") THEN done' = "refused" /\ UNCHANGED <<xs, ys>>
          ELSE IF Len(xs) < N("x") THEN xs' = Append(xs, NextCell("x", xs)) /\ UNCHANGED <<ys, done>>
          ELSE IF Len(ys) < N("y") THEN ys' = Append(ys, NextCell("y", ys)) /\ UNCHANGED <<xs, done>>
          ELSE done' = "laid" /\ UNCHANGED <<xs, ys>>
       /\ UNCHANGED <<q, pick>>
Next == Shape \/ Fill \/ GapShape \/ GapFill \/ Lay
Spec == Init /\ [][Next]_vars

Total(d, cells) == cells[Len(cells)][1] + cells[Len(cells)][2] + q[d].after
Squeezed == LET s == <<Len(ys), Len(xs)>> IN SelectSeq(s, LAMBDA v : v # 1)
Laws == done = "laid" =>
    /\ Total("x", xs) = q.x.before + q.x.after + SumSeq([i \in 1..Len(xs) |-> xs[i][2]]) + SumSeq([i \in 1..(Len(xs) - 1) |-> GapAt(q.x, i)])
    /\ \A i \in 1..(Len(xs) - 1) : xs[i + 1][1] - (xs[i][1] + xs[i][2]) = GapAt(q.x, i)
    /\ \A i \in 1..(Len(ys) - 1) : ys[i][1] + ys[i][2] <= ys[i + 1][1]
Emit == done \in {"laid", "refused"} =>
    PrintT("@@" \o ToJson([q |-> q, ok |-> done = "laid", xs |-> xs, ys |-> ys,
                           total |-> IF done = "laid" THEN <<Total("x", xs), Total("y", ys)>> ELSE <<>>,
                           squeezed |-> IF done = "laid" THEN Squeezed ELSE <<>>]))
=============================================================================
