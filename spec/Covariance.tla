----------------------------- MODULE Covariance -----------------------------
(***************************************************************************)
(* Builders of covariance matrices.  A behaviour chooses a builder and its *)
(* arguments one at a time (99 stands for an argument left out) and then   *)
(* builds: either the arguments are refused, or the matrix follows from    *)
(* the generative model, written as the loading of every variable on every *)
(* latent variable.                                                        *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS Kinds, MaxDim, Weights
VARIABLES cfg, args, out, done
vars == <<cfg, args, out, done>>
None == 99
Kind == cfg.kind
(* how many further numeric arguments the builder takes *)
Slots == CASE Kind = "lvm" -> <<"alpha", "lambd", "epsilon_x", "epsilon_y", "beta_x", "beta_y", "eta_x", "eta_y">>
           [] Kind = "dense" -> <<"alpha", "epsilon">>
           [] Kind = "sparse" -> <<"beta", "lambd", "epsilon", "eta">>
           [] Kind = "pcm" -> <<"correlation", "correlation_x", "correlation_y">>
           [] Kind = "canon" -> [i \in 1..cfg.dx |-> "rho"]
MayOmit == {"epsilon_x", "epsilon_y", "beta_x", "beta_y", "eta_x", "eta_y", "beta", "eta"}
           \cup (IF Kind = "sparse" THEN {"lambd", "epsilon"} ELSE {})
           \cup (IF Kind = "pcm" THEN {"correlation", "correlation_x", "correlation_y"} ELSE {})
Arg(name) == args[CHOOSE i \in 1..Len(args) : Slots[i] = name]
Or(name, d) == IF Arg(name) = None THEN d ELSE Arg(name)

(*------------------------ the generative model --------------------------*)
K == cfg.k
(* effective weights of each builder *)
Eff ==
  CASE Kind = "lvm" ->
        [alpha |-> Arg("alpha"), lambd |-> Arg("lambd"),
         epsilon_x |-> Or("epsilon_x", 1), epsilon_y |-> Or("epsilon_y", Or("epsilon_x", 1)),
         beta_x |-> Or("beta_x", 0), beta_y |-> Or("beta_y", Or("beta_x", 0)),
         eta_x |-> Or("eta_x", 0), eta_y |-> Or("eta_y", Or("eta_x", 0)), k |-> K]
    [] Kind = "dense" ->
        [alpha |-> Arg("alpha"), lambd |-> 0, epsilon_x |-> Arg("epsilon"), epsilon_y |-> Arg("epsilon"),
         beta_x |-> 0, beta_y |-> 0, eta_x |-> 0, eta_y |-> 0, k |-> 0]
    [] Kind = "sparse" ->
        [alpha |-> 0, lambd |-> Or("lambd", 1), epsilon_x |-> Or("epsilon", 1), epsilon_y |-> Or("epsilon", 1),
         beta_x |-> Or("beta", 0), beta_y |-> Or("beta", 0),
         eta_x |-> Or("eta", Or("lambd", 1)), eta_y |-> Or("eta", Or("lambd", 1)), k |-> K]
(* latent variables in the order of the columns *)
Latents(e) == <<<<"Uall", 0>>, <<"UX", 0>>, <<"UY", 0>>>>
     \o [i \in 1..e.k |-> <<"Z", i>>]
     \o [i \in 1..cfg.dx |-> <<"E", i>>]
     \o [i \in 1..cfg.dy |-> <<"F", i>>]
     \o [i \in 1..(cfg.dx - e.k) |-> <<"V", e.k + i>>]
     \o [i \in 1..(cfg.dy - e.k) |-> <<"W", e.k + i>>]
(* loading of variable X_i ("x") or Y_i ("y") on a latent variable *)
Loading(e, s, i, lat) ==
  CASE lat[1] = "Uall" -> e.alpha
    [] lat[1] = "UX" -> IF s = "x" THEN e.beta_x ELSE 0
    [] lat[1] = "UY" -> IF s = "y" THEN e.beta_y ELSE 0
    [] lat[1] = "Z" -> IF lat[2] = i THEN e.lambd ELSE 0
    [] lat[1] = "E" -> IF s = "x" /\ lat[2] = i THEN e.epsilon_x ELSE 0
    [] lat[1] = "F" -> IF s = "y" /\ lat[2] = i THEN e.epsilon_y ELSE 0
    [] lat[1] = "V" -> IF s = "x" /\ lat[2] = i THEN e.eta_x ELSE 0
    [] lat[1] = "W" -> IF s = "y" /\ lat[2] = i THEN e.eta_y ELSE 0
Side(v) == IF v <= cfg.dx THEN "x" ELSE "y"
Idx(v) == IF v <= cfg.dx THEN v ELSE v - cfg.dx
Total == cfg.dx + cfg.dy
LvmOut == LET e == TLCEval(Eff)
              ls == TLCEval(Latents(e))
              m == TLCEval([v \in 1..Total |-> TLCEval([c \in 1..Len(ls) |-> Loading(e, Side(v), Idx(v), ls[c])])])
          IN [eff |-> e, latents |-> ls, mixing |-> m, cov |-> TLCEval(Gram(m))]

(* correlations in units of 1/4 *)
C(name, d) == Or(name, d)
PcmEntry(a, b) ==
    IF a = b THEN 4
    ELSE IF Side(a) # Side(b) THEN (IF Idx(a) = Idx(b) /\ Idx(a) <= K THEN C("correlation", 2) ELSE 0)
    ELSE IF Side(a) = "x" THEN C("correlation_x", 0) ELSE C("correlation_y", 0)
CanonEntry(a, b) == IF a = b THEN 4 ELSE IF Side(a) # Side(b) /\ Idx(a) = Idx(b) THEN args[Idx(a)] ELSE 0
Matrix(Entry(_, _)) == [a \in 1..Total |-> [b \in 1..Total |-> Entry(a, b)]]

Accepted ==
  CASE Kind \in {"lvm", "sparse"} -> 0 <= K /\ K <= MinI(cfg.dx, cfg.dy)
    [] Kind = "pcm" -> /\ cfg.dx >= 1 /\ cfg.dy >= 1 /\ K >= 1 /\ K <= MinI(cfg.dx, cfg.dy)
                       /\ \A i \in 1..Len(args) : args[i] = None \/ (-4 <= args[i] /\ args[i] <= 4)
    [] OTHER -> TRUE

Init == /\ \E kind \in Kinds, dx \in 0..MaxDim, dy \in 0..MaxDim, k \in -1..(MaxDim + 1) :
             /\ kind # "pcm" => dx >= 1 /\ dy >= 1
             /\ kind \in {"lvm", "sparse"} => k <= MinI(dx, dy) + 1
             /\ kind = "canon" => dx <= dy /\ k = 0
             /\ kind = "dense" => k = 0
             /\ cfg = [kind |-> kind, dx |-> dx, dy |-> dy, k |-> k]
        /\ args = <<>> /\ out = <<>> /\ done = FALSE
Choose == /\ ~done /\ Len(args) < Len(Slots)
          /\ LET s == Slots[Len(args) + 1]
             IN \E w \in Weights \cup (IF s \in MayOmit THEN {None} ELSE {}) : args' = Append(args, w)
          /\ UNCHANGED <<cfg, out, done>>
Build == /\ ~done /\ Len(args) = Len(Slots)
         /\ out' = IF ~Accepted THEN <<>>
                   ELSE IF Kind = "pcm" THEN <<[cov |-> Matrix(PcmEntry)]>>
                   ELSE IF Kind = "canon" THEN <<[cov |-> Matrix(CanonEntry)]>>
                   ELSE <<LvmOut>>
         /\ done' = TRUE /\ UNCHANGED <<cfg, args>>
Next == Choose \/ Build
Spec == Init /\ [][Next]_vars

(*------------------------------ consequences ----------------------------*)
Sq(a) == a * a
Laws == (done /\ out # <<>>) =>
  LET m == out[1].cov IN
  /\ IsSymmetric(m)
  /\ Kind \in {"lvm", "dense", "sparse"} =>
       LET e == out[1].eff IN
       /\ Len(out[1].latents) = 3 + 2 * Total - e.k
       /\ \A i \in 1..cfg.dx : m[i][i] = Sq(e.alpha) + Sq(e.beta_x) + Sq(e.epsilon_x)
                                         + (IF i <= e.k THEN Sq(e.lambd) ELSE Sq(e.eta_x))
       /\ \A i \in 1..cfg.dx, j \in 1..cfg.dy :
            m[i][cfg.dx + j] = Sq(e.alpha) + (IF i = j /\ i <= e.k THEN Sq(e.lambd) ELSE 0)
       /\ Kind = "dense" => \A a, b \in 1..Total : a # b => m[a][b] = Sq(e.alpha)
       /\ (Kind = "sparse" /\ Arg("eta") = None) => \A a, b \in 1..Total : m[a][a] = m[b][b]
Emit == done => PrintT("@@" \o ToJson([cfg |-> cfg, slots |-> Slots, args |-> args, ok |-> Accepted, out |-> out]))
=============================================================================
