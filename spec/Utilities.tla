----------------------------- MODULE Utilities -----------------------------
(***************************************************************************)
(* Array and timing utilities.                                             *)
(*  chunk: consecutive slices.   space: joint view, indexing, slicing and  *)
(*  standardisation of two integer arrays.   timer: two stopwatches on a   *)
(*  scripted clock.                                                        *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS Kinds, MaxN, MaxC, Coord, MaxRows, MaxDim, MaxCalls
VARIABLES cfg, flat, clock, base, log, phase, out
vars == <<cfg, flat, clock, base, log, phase, out>>

(*------------------------------- chunking -------------------------------*)
RECURSIVE ChunksFrom(_, _, _)
ChunksFrom(s, n, c) == IF s >= n THEN <<>> ELSE <<<<s, MinI(n, s + c)>>>> \o ChunksFrom(s + c, n, c)
ChunkOut(n, c) == [ok |-> n > 0 /\ c > 0, chunks |-> IF n > 0 /\ c > 0 THEN ChunksFrom(0, n, c) ELSE <<>>]

(*----------------------------- product space ----------------------------*)
Rest(off, d) == [i \in 1..cfg.n |-> [j \in 1..d |-> flat[off + (i - 1) * d + j]]]
AX == Rest(0, cfg.dx)
AY == Rest(cfg.n * cfg.dx, cfg.dy)
Col(m, j) == [i \in 1..Len(m) |-> m[i][j]]
Mean(s) == Q(SumSeq(s), Len(s))
Var(s) == QSub(Q(SumSeq([i \in 1..Len(s) |-> s[i] * s[i]]), Len(s)), QMul(Mean(s), Mean(s)))
Moments(m) == [j \in 1..Len(m[1]) |-> <<Mean(Col(m, j)), Var(Col(m, j))>>]
(* Python indexing: integers and slices start:stop:step ("none" = missing) *)
None == 1000
Clip(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Norm(v, n) == IF v < 0 THEN v + n ELSE v
Begin(s, n) == IF s.step > 0 THEN (IF s.start = None THEN 0 ELSE Clip(Norm(s.start, n), 0, n))
               ELSE (IF s.start = None THEN n - 1 ELSE Clip(Norm(s.start, n), -1, n - 1))
Stop(s, n) == IF s.step > 0 THEN (IF s.stop = None THEN n ELSE Clip(Norm(s.stop, n), 0, n))
              ELSE (IF s.stop = None THEN -1 ELSE Clip(Norm(s.stop, n), -1, n - 1))
RECURSIVE Walk(_, _, _)
Walk(i, e, step) == IF (step > 0 /\ i >= e) \/ (step < 0 /\ i <= e) THEN <<>> ELSE <<i>> \o Walk(i + step, e, step)
SliceRows(s, n) == Walk(Begin(s, n), Stop(s, n), s.step)
Bounds == {None} \cup {-7, -5, -3, -2, -1, 0, 1, 2, 3, 4, 6}
Slices == {[start |-> a, stop |-> b, step |-> c] : a \in Bounds, b \in Bounds, c \in {-3, -2, -1, 1, 2, 3}}
Ints(n) == (-n - 2)..(n + 1)
SpaceOut == [x |-> AX, y |-> AY, mx |-> Moments(AX), my |-> Moments(AY),
             slice |-> [s |-> cfg.slice, rows |-> SliceRows(cfg.slice, cfg.n)],
             ints |-> [k \in 1..(2 * cfg.n + 4) |-> LET i == -cfg.n - 3 + k IN
                         <<i, IF -cfg.n <= i /\ i < cfg.n THEN Norm(i, cfg.n) ELSE -1>>]]

(*--------------------------------- timers -------------------------------*)
Timers == {1, 2}
TimerStep(t, op) ==
   /\ base' = [base EXCEPT ![t] = IF op \in {"new", "reset", "both"} THEN clock ELSE @]
   /\ log' = Append(log, [op |-> op, t |-> t, at |-> clock, value |-> IF op \in {"check", "both"} THEN clock - base[t] ELSE -1])
   /\ UNCHANGED clock
Started(t) == \E k \in 1..Len(log) : log[k].t = t
Tick == \E d \in {1, 2, 5, 100} : clock' = clock + d /\ UNCHANGED <<base, log>>

Need == IF cfg.kind = "space" THEN cfg.n * (cfg.dx + cfg.dy) ELSE 0
Configs(kind) ==
   CASE kind = "chunk" -> {[kind |-> kind, n |-> n, c |-> c] : n \in (-3)..MaxN, c \in (-3)..MaxC}
     [] kind = "space" -> {[kind |-> kind, n |-> n, dx |-> dx, dy |-> dy, slice |-> s] :
                            n \in 1..MaxRows, dx \in 1..MaxDim, dy \in 1..MaxDim, s \in {[start |-> None, stop |-> None, step |-> 1]}}
     [] kind = "timer" -> {[kind |-> kind]}
Init == /\ \E kind \in Kinds : cfg \in Configs(kind)
        /\ flat = <<>> /\ clock = 0 /\ base = <<0, 0>> /\ log = <<>> /\ phase = "data" /\ out = <<>>
Add == /\ phase = "data" /\ Len(flat) < Need
       /\ \E c \in Coord : flat' = Append(flat, c)
       /\ UNCHANGED <<cfg, clock, base, log, phase, out>>
PickSlice == /\ phase = "data" /\ cfg.kind = "space" /\ Len(flat) = Need
             /\ \E s \in Slices : cfg' = [cfg EXCEPT !.slice = s]
             /\ phase' = "ready" /\ UNCHANGED <<flat, clock, base, log, out>>
Run == /\ phase = "data" /\ cfg.kind = "timer" /\ Len(log) < MaxCalls
       /\ \/ Tick
          \/ \E t \in Timers, op \in {"new", "reset", "check", "both"} : (Started(t) <=> op # "new") /\ TimerStep(t, op)
       /\ UNCHANGED <<cfg, flat, phase, out>>
Finish == /\ \/ cfg.kind = "chunk" /\ phase = "data"
             \/ cfg.kind = "space" /\ phase = "ready"
             \/ cfg.kind = "timer" /\ phase = "data" /\ Len(log) = MaxCalls
          /\ out' = CASE cfg.kind = "chunk" -> ChunkOut(cfg.n, cfg.c)
                      [] cfg.kind = "space" -> SpaceOut
                      [] cfg.kind = "timer" -> [log |-> log]
          /\ phase' = "done" /\ UNCHANGED <<cfg, flat, clock, base, log>>
Next == Add \/ PickSlice \/ Run \/ Finish
Spec == Init /\ [][Next]_vars
(*------------------------------ consequences ----------------------------*)
Laws == phase = "done" =>
   CASE cfg.kind = "chunk" -> out.ok =>
          LET ch == out.chunks m == Len(ch) IN
          /\ m = (cfg.n + cfg.c - 1) \div cfg.c                                     \* as few as possible
          /\ ch[1][1] = 0 /\ ch[m][2] = cfg.n
          /\ \A k \in 1..m : ch[k][1] < ch[k][2] /\ ch[k][2] - ch[k][1] <= cfg.c
          /\ \A k \in 1..(m - 1) : ch[k][2] = ch[k + 1][1] /\ ch[k][2] - ch[k][1] = cfg.c
     [] cfg.kind = "space" ->
          /\ \A k \in 1..Len(out.slice.rows) : out.slice.rows[k] \in 0..(cfg.n - 1)
          /\ \A j \in 1..cfg.dx : QLeq(<<0, 1>>, out.mx[j][2])
     [] cfg.kind = "timer" -> \A k \in 1..Len(log) : log[k].value >= -1
Emit == phase = "done" => PrintT("@@" \o ToJson([cfg |-> cfg, out |-> out]))
=============================================================================
