------------------------------ MODULE MCExternal ------------------------------
(* A dependent set and the owner of what it lacks, fed in every way: when  *)
(* both have seen the same samples the dependent set answers what one set  *)
(* would; otherwise each feature follows the set that accumulates it.      *)
EXTENDS External, SequencesExt
CONSTANTS MaxLen, Xs, Ws
VARIABLES m, one, hd, ho
vars == <<m, one, hd, ho>>
Init == m = ExtInit([z |-> "0"]) /\ one = SumInit /\ hd = <<>> /\ ho = <<>>
Next == /\ Len(hd) + Len(ho) < MaxLen
        /\ \E who \in {"d", "o", "b", "c"}, x \in Xs, w \in Ws :
             /\ m' = ExtPush(m, who, x, w)
             /\ hd' = IF who = "o" THEN hd ELSE Append(hd, <<x, w>>)
             /\ ho' = IF who = "d" THEN ho ELSE Append(ho, <<x, w>>)
             /\ one' = IF who = "o" THEN one ELSE SumStep(one, x, w, "0", "1")
Spec == Init /\ [][Next]_vars
Same == hd = ho => /\ m.d = one /\ m.o = one
                   /\ hd # <<>> => /\ ExtAgree("xw", m, "double", "mean", Mu(one))
                                   /\ ExtAgree("xw", m, "double", "variance", Var(one))
                                   /\ ~ExtAgree("xw", m, "double", "mean", RAdd(Mu(one), "1/10"))
Apart == (hd # <<>> /\ ho # <<>>) =>
   LET sx(h) == FoldLeft(LAMBDA a, e : RAdd(a, RMul(e[2], e[1])), "0", h)
       sw(h) == FoldLeft(LAMBDA a, e : RAdd(a, e[2]), "0", h)
   IN /\ ExtAgree("xw", m, "double", "mean", RDiv(sx(hd), sw(ho)))
      /\ ExtAgree("xs", m, "double", "mean", RDiv(sx(ho), sw(hd)))
      /\ ExtAgree("xw", m, "double", "sum_of_weights", sw(ho))
=============================================================================
