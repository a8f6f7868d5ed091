------------------------------ MODULE Student ------------------------------
(***************************************************************************)
(* The dispersion-free term of the Student-t mutual information            *)
(*    c(nu; a, b) = h(a) + h(b) - h(a + b),                                 *)
(* h(k) the differential entropy of the standard k-dimensional Student-t.   *)
(* For integer nu all arguments of lnGamma and psi are half-integers, so    *)
(* c is an exact linear combination of logarithms of rationals, log pi,     *)
(* log 2 and rationals.  A behaviour starts from (nu, a, b) and grows it    *)
(* one step at a time; each step is checked against the recurrences.        *)
(***************************************************************************)
EXTENDS StudentTerm, Json
CONSTANTS MaxNu, MaxDim
VARIABLES nu, a, b
vars == <<nu, a, b>>

Init == nu = 1 /\ a = 1 /\ b = 1
MoreFreedom == nu < MaxNu /\ nu' = nu + 1 /\ UNCHANGED <<a, b>>
WiderX == a < MaxDim /\ a' = a + 1 /\ UNCHANGED <<nu, b>>
WiderY == b < MaxDim /\ b' = b + 1 /\ UNCHANGED <<nu, a>>
Next == MoreFreedom \/ WiderX \/ WiderY
Spec == Init /\ [][Next]_vars

(* Gamma(z + 1) = z Gamma(z) and psi(z + 1) = psi(z) + 1/z, for z = s/2 *)
Recurrences ==
  \A s \in {nu, nu + a, nu + b, nu + a + b} :
    /\ LG(s + 2).pi = LG(s).pi /\ PS(s + 2).ln2 = PS(s).ln2
    /\ LET p == LG(s).args
           r == LG(s + 2).args
       IN  Len(r) = Len(p) + 1 /\ SubSeq(r, 1, Len(p)) = p /\ Q(r[Len(r)][1], r[Len(r)][2]) = Q(s, 2)
    /\ LET p == PS(s).terms
           r == PS(s + 2).terms
       IN  Len(r) = Len(p) + 1 /\ SubSeq(r, 1, Len(p)) = p /\ Q(r[Len(r)][1], r[Len(r)][2]) = Q(2, s)
(* covariance = dispersion * nu / (nu - 2), undefined for nu <= 2 *)
Factor == IF nu <= 2 THEN <<0, 1>> ELSE Q(nu, nu - 2)
Emit == PrintT("@@" \o ToJson([nu |-> nu, a |-> a, b |-> b, c |-> Correction(nu, a, b), factor |-> Factor]))
=============================================================================
