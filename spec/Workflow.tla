------------------------------ MODULE Workflow ------------------------------
(***************************************************************************)
(* Aggregation of benchmark runs.  Runs of (estimator, task, size, seed)    *)
(* arrive one at a time, in any order, each with an estimate (an integer    *)
(* number of eighths of a nat) or Failed (not a number).  Then the tables   *)
(* are requested: for a size or for the largest size by default.            *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS NE, NT, NS, NR, Values, MaxRuns
Failed == 1000000
Default == -1

VARIABLES runs, phase, cur, request, out
vars == <<runs, phase, cur, request, out>>

Keys == (1..NE) \X (1..NT) \X (1..NS) \X (1..NR)
KeyOf(r) == <<r.e, r.t, r.s, r.r>>
Seen == { KeyOf(runs[i]) : i \in DOMAIN runs }

(*----------------------------- definitions ------------------------------*)
Sizes == { runs[i].s : i \in DOMAIN runs }
Largest == CHOOSE s \in Sizes : \A o \in Sizes : o <= s
Group(e, t, s) == SelectSeq(runs, LAMBDA r : r.e = e /\ r.t = t /\ r.s = s)
Good(rs) == SelectSeq(rs, LAMBDA r : r.v # Failed)
MaxV(rs) == LET vs == { rs[i].v : i \in DOMAIN rs } IN CHOOSE v \in vs : \A o \in vs : o <= v
(* above 10% of the largest estimate of the same estimator, task and size   *)
Converged(r) == LET g == Good(Group(r.e, r.t, r.s)) IN r.v # Failed /\ 10 * r.v > MaxV(g)
SumV(rs) == FoldSeq(LAMBDA r, acc : acc + r.v, 0, rs)

Cell(rs) == LET g == Good(rs) IN
  [n |-> Len(rs), good |-> Len(g), mean |-> IF g = <<>> THEN <<0, 1>> ELSE Q(SumV(g), Len(g)), vs |-> [i \in DOMAIN g |-> g[i].v]]
OfPair(e, t, ok(_)) == SelectSeq(runs, LAMBDA r : r.e = e /\ r.t = t /\ ok(r))
Table(ok(_)) == [e \in 1..NE |-> [t \in 1..NT |-> Cell(OfPair(e, t, ok))]]
Fractions(ok(_)) == [e \in 1..NE |-> [t \in 1..NT |->
    LET rs == OfPair(e, t, ok) IN [n |-> Len(rs), c |-> Len(SelectSeq(rs, Converged))]]]

Wanted == IF request = Default THEN Largest ELSE request
TaskRows == { runs[i].t : i \in DOMAIN runs }
Tables == [ all     |-> Table(LAMBDA r : r.s = Wanted),
            conv    |-> Table(LAMBDA r : r.s = Wanted /\ Converged(r)),
            frac    |-> Fractions(LAMBDA r : r.s = Wanted),
            \* the same without the restriction to one size (used only to tell deviations apart)
            xall    |-> Table(LAMBDA r : TRUE),
            xconv   |-> Table(Converged),
            xfrac   |-> Fractions(LAMBDA r : TRUE),
            wanted  |-> Wanted ]

(*------------------------------ behaviours ------------------------------*)
NoCur == [e |-> 0, t |-> 0, s |-> 0, r |-> 0]
Init == runs = <<>> /\ phase = "runs" /\ cur = NoCur /\ request = Default /\ out = <<>>
PickE == phase = "runs" /\ cur.e = 0 /\ Len(runs) < MaxRuns /\ \E e \in 1..NE : cur' = [cur EXCEPT !.e = e] /\ UNCHANGED <<runs, phase, request, out>>
PickRest == /\ phase = "runs" /\ cur.e # 0 /\ cur.t = 0
            /\ \E t \in 1..NT, s \in 1..NS, r \in 1..NR : <<cur.e, t, s, r>> \notin Seen /\ cur' = [cur EXCEPT !.t = t, !.s = s, !.r = r]
            /\ UNCHANGED <<runs, phase, request, out>>
GiveUp == /\ phase = "runs" /\ cur.e # 0 /\ cur.t = 0 /\ \A t \in 1..NT, s \in 1..NS, r \in 1..NR : <<cur.e, t, s, r>> \in Seen
          /\ cur' = NoCur /\ UNCHANGED <<runs, phase, request, out>>
Record == /\ phase = "runs" /\ cur.t # 0
          /\ \E v \in Values \cup {Failed} : runs' = Append(runs, [e |-> cur.e, t |-> cur.t, s |-> cur.s, r |-> cur.r, v |-> v])
          /\ cur' = NoCur /\ UNCHANGED <<phase, request, out>>
Request == /\ phase = "runs" /\ cur = NoCur /\ Len(runs) > 0 /\ \E q \in Sizes \cup {Default} : request' = q
           /\ phase' = "tables" /\ UNCHANGED <<runs, cur, out>>
Finish == phase = "tables" /\ out' = <<Tables>> /\ phase' = "done" /\ UNCHANGED <<runs, cur, request>>
Next == PickE \/ PickRest \/ GiveUp \/ Record \/ Request \/ Finish
(* simulation: only whole tables are aggregated *)
RequestFull == Len(runs) = MinI(MaxRuns, NE * NT * NS * NR) /\ Request
NextFull == PickE \/ PickRest \/ GiveUp \/ Record \/ RequestFull \/ Finish
Spec == Init /\ [][Next]_vars

(*------------------------------ properties ------------------------------*)
ExactlyOnce == Cardinality(Seen) = Len(runs)
Accounting == phase = "done" =>
  /\ FoldSeq(LAMBDA e, acc : acc + FoldSeq(LAMBDA t, a : a + out[1].xall[e][t].n, 0, [t \in 1..NT |-> t]), 0, [e \in 1..NE |-> e]) = Len(runs)
  /\ \A e \in 1..NE, t \in 1..NT : /\ out[1].conv[e][t].n = out[1].frac[e][t].c /\ out[1].frac[e][t].c <= out[1].frac[e][t].n
                                   /\ out[1].all[e][t].n <= out[1].xall[e][t].n
(* the largest estimate of a group converges exactly when it is positive    *)
BestConverges == phase = "tables" =>
  \A i \in DOMAIN runs : (runs[i].v # Failed /\ runs[i].v = MaxV(Good(Group(runs[i].e, runs[i].t, runs[i].s)))) => (Converged(runs[i]) <=> runs[i].v > 0)
OneSize == phase = "done" /\ Cardinality(Sizes) = 1 => out[1].all = out[1].xall /\ out[1].conv = out[1].xconv /\ out[1].frac = out[1].xfrac
Emit == phase = "done" => PrintT("@@" \o ToJson([runs |-> runs, request |-> request, out |-> out[1], ns |-> Cardinality(Sizes)]))
=============================================================================
