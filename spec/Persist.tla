------------------------------ MODULE Persist ------------------------------
(***************************************************************************)
(* What is written can be read.  Mode "csv": histories of saving, refused  *)
(* saving, reading and reading dimensions on a few files.  Mode "yaml":    *)
(* terms built by a stack machine and their plain normal form.             *)
(***************************************************************************)
EXTENDS Num, Json, Randomization
CONSTANTS Mode, MaxOps, MaxDim, MaxRows
VARIABLES disk, count, stack, log, pick, phase
vars == <<disk, count, stack, log, pick, phase>>

(*----------------------------------- csv --------------------------------*)
Files == {"a.csv", "b", "sub dir/c.csv"}
Nothing == [id |-> 0]
Classes == {"unit", "tiny", "huge", "integers", "big integers", "float32", "nan and inf", "subnormal", "mixed", "jax", "list", "bool", "decimal", "repeated", "constant", "last row same"}
BadKinds == {"short y", "short x", "1-d x", "1-d y", "3-d x", "scalar", "one y", "one x", "no y", "one of one"}
Rec(op, f, more) == [op |-> op, file |-> f] @@ more
Csv ==
   \/ /\ pick = "save" /\ \E f \in Files, dx \in RandomSubset(MinI(6, MaxDim), 1..MaxDim), dy \in RandomSubset(MinI(6, MaxDim), 1..MaxDim) :
           \E n \in RandomSubset(MinI(6, MaxRows), 0..MaxRows), cl \in Classes :
            /\ disk' = [disk EXCEPT ![f] = [id |-> count + 1, dx |-> dx, dy |-> dy, n |-> n]]
            /\ log' = Append(log, Rec("save", f, [id |-> count + 1, dx |-> dx, dy |-> dy, n |-> n, class |-> cl]))
            /\ count' = count + 1
   \/ /\ pick = "bad" /\ \E f \in Files, k \in BadKinds : log' = Append(log, Rec("bad", f, [kind |-> k, id |-> disk[f].id]))
      /\ UNCHANGED <<disk, count>>
   \/ /\ pick = "read" /\ \E f \in Files : log' = Append(log, Rec("read", f, disk[f])) /\ UNCHANGED <<disk, count>>
   \/ /\ pick = "dims" /\ \E f \in Files : log' = Append(log, Rec("dims", f, disk[f])) /\ UNCHANGED <<disk, count>>

(*---------------------------------- yaml --------------------------------*)
(* a term is <<kind, payload>>; plain terms: int float str bool none list dict *)
Scalars == {<<"int", 0>>, <<"int", -7>>, <<"int", 123456789>>, <<"float", "0.1">>, <<"float", "1e-05">>, <<"float", "1e+300">>, <<"float", "nan">>, <<"float", "inf">>,
            <<"float", "-inf">>, <<"float", "3.0">>, <<"str", "text">>, <<"str", "">>, <<"str", "12">>, <<"str", "yes">>, <<"str", "a: b # c">>, <<"str", "null">>,
            <<"str", "two lines">>, <<"str", "unicode">>, <<"str", "1e5">>, <<"bool", TRUE>>, <<"bool", FALSE>>, <<"none", 0>>,
            <<"npfloat64", "0.1">>, <<"npfloat64", "nan">>, <<"npfloat32", "0.25">>, <<"npfloat32", "inf">>, <<"npfloat16", "0.5">>, <<"npint64", 5>>, <<"npint32", -3>>, <<"npuint8", 200>>,
            <<"npbool", TRUE>>, <<"npbool", FALSE>>, <<"npstr", "word">>, <<"path", "some/dir/file.txt">>, <<"pure", "rel.txt">>, <<"enumstr", "red">>, <<"enumint", 2>>, <<"intenum", 4>>,
            <<"strenum", "blue">>, <<"arr0", 7>>, <<"arr1", <<1, 2, 3>>>>, <<"arrf", <<"0.5", "nan", "2.0">>>>, <<"arr2", << <<1, 2>>, <<3, 4>> >>>>, <<"arrempty", <<>>>>, <<"arrbool", <<TRUE, FALSE>>>>}
Ints(s) == [i \in 1..Len(s) |-> <<"int", s[i]>>]
RECURSIVE Plain(_)
Plain(t) ==
   CASE t[1] \in {"int", "float", "str", "bool", "none"} -> t
     [] t[1] \in {"npfloat64", "npfloat32", "npfloat16"} -> <<"float", t[2]>>
     [] t[1] \in {"npint64", "npint32", "npuint8", "enumint", "intenum", "arr0"} -> <<"int", t[2]>>
     [] t[1] = "npbool" -> <<"bool", t[2]>>
     [] t[1] \in {"npstr", "path", "pure", "enumstr", "strenum"} -> <<"str", t[2]>>
     [] t[1] \in {"arr1", "arrempty"} -> <<"list", Ints(t[2])>>
     [] t[1] = "arrf" -> <<"list", [i \in 1..Len(t[2]) |-> <<"float", t[2][i]>>]>>
     [] t[1] = "arrbool" -> <<"list", [i \in 1..Len(t[2]) |-> <<"bool", t[2][i]>>]>>
     [] t[1] = "arr2" -> <<"list", [i \in 1..Len(t[2]) |-> <<"list", Ints(t[2][i])>>]>>
     [] t[1] \in {"list", "tuple"} -> <<"list", [i \in 1..Len(t[2]) |-> Plain(t[2][i])]>>
     [] t[1] \in {"dict", "intdict"} -> <<t[1], [i \in 1..Len(t[2]) |-> Plain(t[2][i])]>>
     [] t[1] = "twice" -> LET p == Plain(t[2]) IN <<"list", <<p, p>>>>          \* the same object in two places
RECURSIVE Simple(_)
Simple(t) == CASE t[1] \in {"list", "dict", "intdict"} -> \A i \in 1..Len(t[2]) : Simple(t[2][i])
               [] OTHER -> t[1] \in {"int", "float", "str", "bool", "none"}
Top(k) == SubSeq(stack, Len(stack) - k + 1, Len(stack))
Replace(k, t) == stack' = Append(SubSeq(stack, 1, Len(stack) - k), t)
Yaml == /\ \/ pick = "scalar" /\ \E s \in Scalars : stack' = Append(stack, s)
           \/ pick = "wrap" /\ \E k \in 0..MinI(3, Len(stack)), w \in {"list", "tuple", "dict", "intdict"} : Replace(k, <<w, Top(k)>>)
           \/ pick = "twice" /\ stack # <<>> /\ Replace(1, <<"twice", Top(1)[1]>>)
        /\ log' = Append(log, pick) /\ UNCHANGED <<disk, count>>

Init == /\ disk = [f \in Files |-> Nothing] /\ count = 0 /\ stack = <<>> /\ log = <<>> /\ pick = "" /\ phase = "run"
Menu == /\ pick = "" /\ Len(log) < MaxOps
        /\ pick' \in IF Mode = "csv" THEN {"save", "bad", "read", "dims"} ELSE {"scalar", "scalar2", "wrap", "twice"}
        /\ UNCHANGED <<disk, count, stack, log, phase>>
Alias == pick = "scalar2" /\ pick' = "scalar" /\ UNCHANGED <<disk, count, stack, log, phase>>
Back == pick = "twice" /\ stack = <<>> /\ pick' = "" /\ UNCHANGED <<disk, count, stack, log, phase>>
Do == /\ IF Mode = "csv" THEN Csv /\ UNCHANGED stack ELSE Yaml
      /\ pick' = "" /\ UNCHANGED phase
Finish == pick = "" /\ phase = "run" /\ Len(log) = MaxOps /\ phase' = "done" /\ UNCHANGED <<disk, count, stack, log, pick>>
Next == Menu \/ Alias \/ Back \/ Do \/ Finish
Spec == Init /\ [][Next]_vars
Laws == phase = "done" => /\ Mode = "csv" => \A f \in Files : disk[f].id <= count
                          /\ Mode = "yaml" => \A i \in 1..Len(stack) : Simple(Plain(stack[i])) /\ Plain(Plain(stack[i])) = Plain(stack[i])
Emit == phase = "done" => PrintT("@@" \o ToJson(IF Mode = "csv" THEN [log |-> log] ELSE
            [terms |-> stack, plain |-> [i \in 1..Len(stack) |-> Plain(stack[i])]]))
=============================================================================
