------------------------------ MODULE Figures ------------------------------
(***************************************************************************)
(* Tables behind the figures of the papers.  Runs of (estimator, task,     *)
(* size, seed) arrive in any order with an estimate in eighths of a nat.   *)
(* A run of a neural estimator has failed when it is negative or below a   *)
(* tenth of the best of its seeds; failed runs are left out.               *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS NE, NT, NS, NR, Values, MaxRuns, Truths
Neural(e) == e % 2 = 1
VARIABLES runs, phase, cur, truth, out
vars == <<runs, phase, cur, truth, out>>
E == 1..NE
T == 1..NT
S == 1..NS
KeyOf(r) == <<r.e, r.t, r.s, r.r>>
Seen == { KeyOf(runs[i]) : i \in DOMAIN runs }

Group(e, t, s) == SelectSeq(runs, LAMBDA r : r.e = e /\ r.t = t /\ r.s = s)
Best(rs) == Max({rs[i].v : i \in DOMAIN rs})
Failed(r) == Neural(r.e) /\ (r.v < 0 \/ 10 * r.v < Best(Group(r.e, r.t, r.s)))
Kept(e, t, s) == SelectSeq(Group(e, t, s), LAMBDA r : ~Failed(r))
Vs(rs) == [i \in DOMAIN rs |-> rs[i].v]
Largest == Max({ runs[i].s : i \in DOMAIN runs })
Product(rs) == FoldSeq(LAMBDA r, acc : acc * r.v, 1, rs)
(* the mean of log(v / true) over the seeds is closer to 0 than log 3/2 *)
Solved(e, t, s) == LET g == Kept(e, t, s) k == Len(g) p == Product(g) IN
   Pow(2 * truth[t], k) < Pow(3, k) * p /\ Pow(2, k) * p < Pow(3 * truth[t], k)
Tie(e, t, s) == LET g == Kept(e, t, s) k == Len(g) p == Product(g) IN
   g # <<>> /\ (Pow(2 * truth[t], k) = Pow(3, k) * p \/ Pow(2, k) * p = Pow(3 * truth[t], k))
Has(e, t) == { s \in S : Kept(e, t, s) # <<>> }
(* smallest size from which on everything is solved: 0 no data, NS + 1 never *)
Needed(e, t) == IF Has(e, t) = {} THEN 0
   ELSE LET good == { s \in Has(e, t) : \A u \in Has(e, t) : u >= s => Solved(e, t, u) }
        IN IF good = {} THEN NS + 1 ELSE Min(good)
Tables == [largest |-> Largest,
           failed  |-> [i \in DOMAIN runs |-> Failed(runs[i])],
           kept    |-> [e \in E |-> [t \in T |-> Vs(Kept(e, t, Largest))]],
           fails   |-> [e \in E |-> [t \in T |-> IF ~Neural(e) \/ Group(e, t, Largest) = <<>> THEN -1
                                                 ELSE Cardinality({i \in DOMAIN runs : runs[i].e = e /\ runs[i].t = t /\ runs[i].s = Largest /\ Failed(runs[i])})]],
           needed  |-> [e \in E |-> [t \in T |-> Needed(e, t)]],
           tie     |-> [e \in E |-> [t \in T |-> \E s \in S : Tie(e, t, s)]]]

NoCur == [e |-> 0, t |-> 0, s |-> 0, r |-> 0]
Init == runs = <<>> /\ phase = "truth" /\ cur = NoCur /\ truth = <<>> /\ out = <<>>
Truth == /\ phase = "truth" /\ \E v \in Truths : truth' = Append(truth, v)
         /\ phase' = (IF Len(truth) + 1 = NT THEN "runs" ELSE "truth") /\ UNCHANGED <<runs, cur, out>>
PickE == phase = "runs" /\ cur.e = 0 /\ Len(runs) < MaxRuns /\ \E e \in E : cur' = [cur EXCEPT !.e = e] /\ UNCHANGED <<runs, phase, truth, out>>
PickRest == /\ phase = "runs" /\ cur.e # 0 /\ cur.t = 0
            /\ \E t \in T, s \in S, r \in 1..NR : <<cur.e, t, s, r>> \notin Seen /\ cur' = [cur EXCEPT !.t = t, !.s = s, !.r = r]
            /\ UNCHANGED <<runs, phase, truth, out>>
GiveUp == /\ phase = "runs" /\ cur.e # 0 /\ cur.t = 0 /\ \A t \in T, s \in S, r \in 1..NR : <<cur.e, t, s, r>> \in Seen
          /\ cur' = NoCur /\ UNCHANGED <<runs, phase, truth, out>>
Record == /\ phase = "runs" /\ cur.t # 0
          /\ \E k \in 1..3 : \E v \in {x \in (IF k = 1 THEN Values ELSE {truth[cur.t] - 1, truth[cur.t] + 2, truth[cur.t]}) : Neural(cur.e) \/ x >= 0} :
                runs' = Append(runs, [e |-> cur.e, t |-> cur.t, s |-> cur.s, r |-> cur.r, v |-> v])
          /\ cur' = NoCur /\ UNCHANGED <<phase, truth, out>>
Finish == /\ phase = "runs" /\ cur = NoCur /\ Len(runs) > 0 /\ (Len(runs) = MaxRuns \/ Len(runs) = NE * NT * NS * NR)
          /\ out' = <<Tables>> /\ phase' = "done" /\ UNCHANGED <<runs, cur, truth>>
Next == Truth \/ PickE \/ PickRest \/ GiveUp \/ Record \/ Finish
Spec == Init /\ [][Next]_vars

Laws == phase = "done" =>
  /\ \A i \in DOMAIN runs : out[1].failed[i] => Neural(runs[i].e)
  \* the best seed fails only when it is negative; one seed alone fails only when negative
  /\ \A i \in DOMAIN runs : runs[i].v >= 0 /\ runs[i].v = Best(Group(runs[i].e, runs[i].t, runs[i].s)) => ~out[1].failed[i]
  /\ \A e \in E, t \in T : /\ Len(out[1].kept[e][t]) + MaxI(0, out[1].fails[e][t]) = Len(Group(e, t, Largest))
                           \* more solved sizes never increase the need
                           /\ out[1].needed[e][t] \in S => Solved(e, t, out[1].needed[e][t]) /\ Solved(e, t, Max(Has(e, t)))
                           /\ out[1].needed[e][t] = NS + 1 => ~Solved(e, t, Max(Has(e, t)))
Emit == phase = "done" => PrintT("@@" \o ToJson([ns |-> NS, runs |-> runs, truth |-> truth, out |-> out[1]]))
=============================================================================
