---------------------------- MODULE StudentTerm ----------------------------
(***************************************************************************)
(* The dispersion-free term of the Student-t mutual information for         *)
(* integer degrees of freedom, as an exact symbolic expression.             *)
(***************************************************************************)
EXTENDS Num

(* lnGamma(s/2) = pi * (ln pi)/2 + sum of ln args *)
LG(s) == IF s % 2 = 0 THEN [pi |-> 0, args |-> [j \in 1..(s \div 2 - 1) |-> <<j, 1>>]]
         ELSE [pi |-> 1, args |-> [j \in 1..((s - 1) \div 2) |-> <<2 * j - 1, 2>>]]
(* psi(s/2) = -gamma + ln2 * ln 2 + sum of terms *)
PS(s) == IF s % 2 = 0 THEN [ln2 |-> 0, terms |-> [j \in 1..(s \div 2 - 1) |-> <<1, j>>]]
         ELSE [ln2 |-> -2, terms |-> [j \in 1..((s - 1) \div 2) |-> <<2, 2 * j - 1>>]]

(* psi((nu + k)/2) - psi(nu/2): the gammas cancel *)
DigammaDiff(v, k) == [ln2 |-> PS(v + k).ln2 - PS(v).ln2, plus |-> PS(v + k).terms, minus |-> PS(v).terms]

Correction(v, x, y) ==
  [ lgplus  |-> <<LG(v), LG(v + x + y)>>,
    lgminus |-> <<LG(v + x), LG(v + y)>>,
    \* each entry: weight <<num, den>> and the digamma difference
    dgplus  |-> << [w |-> <<v + x, 2>>, d |-> DigammaDiff(v, x)], [w |-> <<v + y, 2>>, d |-> DigammaDiff(v, y)] >>,
    dgminus |-> << [w |-> <<v + x + y, 2>>, d |-> DigammaDiff(v, x + y)] >> ]
=============================================================================
