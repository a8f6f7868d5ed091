-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact arithmetic used by all specifications: integers, rationals        *)
(* <<num, den>> (den > 0, reduced) and integer matrices.                   *)
(* TLC integers are 32-bit and overflow raises an error, so a value that   *)
(* is too large is reported by TLC and never silently wrong.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Abs(a) == IF a < 0 THEN -a ELSE a
MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
LCM(a, b) == (a \div GCD(a, b)) * b

RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

SumFn(f, S) == FoldSet(LAMBDA i, acc : f[i] + acc, 0, S)

(*----------------------------- rationals --------------------------------*)
Q(n, d) == LET g == GCD(Abs(n), Abs(d))
               s == IF d < 0 THEN -1 ELSE 1
           IN  IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
QI(n) == <<n, 1>>
QAdd(a, b) == LET l == LCM(a[2], b[2]) IN Q(a[1] * (l \div a[2]) + b[1] * (l \div b[2]), l)
QNeg(a) == <<-a[1], a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) == LET g == GCD(Abs(a[1]), b[2])
                  h == GCD(Abs(b[1]), a[2])
              IN  IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>>
                  ELSE <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
QInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
QDiv(a, b) == QMul(a, QInv(b))
QSgn(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
(* comparison by continued fractions, so that nothing overflows *)
RECURSIVE CmpFrac(_, _, _, _)
CmpFrac(n1, d1, n2, d2) ==
    LET f1 == n1 \div d1
        f2 == n2 \div d2
        r1 == n1 % d1
        r2 == n2 % d2
    IN  IF f1 # f2 THEN (IF f1 < f2 THEN -1 ELSE 1)
        ELSE IF r1 = 0 /\ r2 = 0 THEN 0
        ELSE IF r1 = 0 THEN -1
        ELSE IF r2 = 0 THEN 1
        ELSE CmpFrac(d2, r2, d1, r1)
QCmp(a, b) == CmpFrac(a[1], a[2], b[1], b[2])
QLess(a, b) == QCmp(a, b) = -1
QLeq(a, b) == QCmp(a, b) # 1
QMax(a, b) == IF QLess(a, b) THEN b ELSE a
QMin(a, b) == IF QLess(a, b) THEN a ELSE b
RECURSIVE QSum(_)
QSum(s) == IF s = <<>> THEN <<0, 1>> ELSE QAdd(Head(s), QSum(Tail(s)))
QProd(s) == FoldSeq(LAMBDA e, acc : QMul(e, acc), <<1, 1>>, s)
QPow(a, n) == QProd([i \in 1..n |-> a])

(*----------------------------- matrices ---------------------------------*)
(* A matrix is a sequence of rows.                                         *)
Rows(m) == Len(m)
SubMat(m, rs, cs) == [i \in 1..Len(rs) |-> [j \in 1..Len(cs) |-> m[rs[i]][cs[j]]]]
Minor1(m, j) == \* drop row 1 and column j
    [r \in 1..(Len(m) - 1) |-> [c \in 1..(Len(m) - 1) |-> m[r + 1][IF c < j THEN c ELSE c + 1]]]
RECURSIVE Det(_)
Det(m) == IF Len(m) = 0 THEN 1
          ELSE IF Len(m) = 1 THEN m[1][1]
          ELSE IF Len(m) = 2 THEN m[1][1] * m[2][2] - m[1][2] * m[2][1]
          ELSE SumSeq([j \in 1..Len(m) |->
                 IF m[1][j] = 0 THEN 0
                 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * m[1][j] * Det(Minor1(m, j))])
Transpose(m) == [i \in 1..Len(m[1]) |-> [j \in 1..Len(m) |-> m[j][i]]]
Dot(u, v) == SumSeq([i \in 1..Len(u) |-> u[i] * v[i]])
MatMul(a, b) == LET bt == Transpose(b) IN [i \in 1..Len(a) |-> [j \in 1..Len(bt) |-> Dot(a[i], bt[j])]]
MatVec(a, v) == [i \in 1..Len(a) |-> Dot(a[i], v)]
Gram(a) == [i \in 1..Len(a) |-> [j \in 1..Len(a) |-> Dot(a[i], a[j])]]
IsSymmetric(m) == \A i, j \in 1..Len(m) : m[i][j] = m[j][i]
Range1(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
(* Sylvester: all leading principal minors positive *)
IsPosDef(m) == /\ IsSymmetric(m)
               /\ \A k \in 1..Len(m) : Det(SubMat(m, Range1(1, k), Range1(1, k))) > 0

(*------------------------------ output ----------------------------------*)
Bool01(b) == IF b THEN 1 ELSE 0
=============================================================================
