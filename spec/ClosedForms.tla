---------------------------- MODULE ClosedForms ----------------------------
(* Parameters of the samplers with closed-form mutual information, valid    *)
(* and invalid ones, explored exhaustively by small steps; the value is a   *)
(* sum of symbolic terms.                                                   *)
EXTENDS Num, Json
CONSTANTS MaxNum, Dens, MaxM, MaxK
VARIABLES kind, num, den, k
vars == <<kind, num, den, k>>
One(c) == [c |-> c, f |-> "one", a |-> <<1, 1>>]
Log(c, a) == [c |-> c, f |-> "log", a |-> a]
Gamma(c) == [c |-> c, f |-> "gamma", a |-> <<1, 1>>]
Kinds == {"uniform", "disc", "zip", "zipk"}
Init == kind \in Kinds /\ num = -1 /\ den \in (IF kind = "disc" THEN {1} ELSE Dens) /\ k = (IF kind = "zipk" THEN 1 ELSE 0)
Up == /\ num < (CASE kind = "uniform" -> MaxNum [] kind = "disc" -> MaxM [] OTHER -> den + 1)
      /\ num' = num + 1 /\ UNCHANGED <<kind, den, k>>
Longer == kind = "zipk" /\ num = 0 /\ k < MaxK /\ k' = k + 1 /\ UNCHANGED <<kind, num, den>>
Next == Up \/ Longer
Spec == Init /\ [][Next]_vars
P == Q(num, den)
Ok == CASE kind = "uniform" -> num > 0
        [] kind = "disc" -> num > 0
        [] OTHER -> num >= 0 /\ num < den
Pow2(i) == Pow(2, i)
MI == CASE kind = "uniform" -> IF QLess(<<1, 2>>, P) THEN << One(QDiv(<<1, 4>>, P)) >>
                                ELSE << One(P), Log(<<-1, 1>>, QMul(<<2, 1>>, P)) >>
        [] kind = "disc" -> << Log(<<1, 1>>, <<num, 1>>), Log(Q(1 - num, num), <<2, 1>>) >>
        [] kind = "zip" -> << One(QMul(QSub(<<1, 1>>, P), <<753, 2500>>)) >>
        [] kind = "zipk" -> LET c == QSub(<<1, 1>>, P)
                            IN << Log(QMul(<<2, 1>>, c), <<2, 1>>), Gamma(QNeg(c)) >>
                               \o [i \in 1..k |-> Log(QNeg(QMul(c, <<1, Pow2(i)>>)), <<i, 1>>)]
(* both branches of the uniform model meet at 1/2 *)
Continuous == (kind = "uniform" /\ P = <<1, 2>>) => QDiv(<<1, 4>>, P) = P
Emit == PrintT("@@" \o ToJson([kind |-> kind, p |-> <<num, den>>, k |-> k, ok |-> Ok, mi |-> IF Ok THEN MI ELSE <<>>]))
=============================================================================
