------------------------------ MODULE External ------------------------------
(* Sets that depend on something outside them: d, a set that lacks a       *)
(* feature (or its weights), and o, the set that owns it; or a set with a  *)
(* reference to a variable and a fixed value.  d's results are those of a  *)
(* set that has both histories, each feature from where it is accumulated. *)
EXTENDS Rat, Summary

ExtInit(p) == [d |-> SumInit, o |-> SumInit, var |-> IF "var" \in DOMAIN p THEN p.var ELSE "0",
               val |-> IF "val" \in DOMAIN p THEN p.val ELSE "0"]

\* who: d the dependent set, o the owner, b both (owner first), c both (dependent first), v the variable, r the reference
ExtPush(m, who, x, w) ==
  [m EXCEPT !.d = IF who \in {"d", "b", "c"} THEN SumStep(@, x, w, "0", "1") ELSE @,
            !.o = IF who \in {"o", "b", "c"} THEN SumStep(@, x, w, "0", "1") ELSE @,
            !.var = IF who \in {"v", "r"} THEN x ELSE @]

\* the second moment of one set about the mean of the other
XVariance(m, t, r) ==
  (m.d.n # "0" /\ m.o.n # "0" /\ Holds(m.d, t, 2) /\ Holds(m.o, t, 1)) =>
     RFin(r) /\ RNear(r, RSub(Mom(m.d, 2), RPow(Mu(m.o), 2)), TolOf(t), RAdd(AMom(m.d, 2), RPow(AMom(m.o, 1), 2)))

ExtAgree(fam, m, t, f, r) ==
  LET xs == [m.d EXCEPT !.S = [@ EXCEPT ![1] = m.o.S[1]], !.A = [@ EXCEPT ![1] = m.o.A[1]]]
      xw == [m.d EXCEPT !.W = m.o.W]
  IN ~IsList(r) /\
     CASE f = "count" -> REq(r, IF fam = "xc" THEN m.o.n ELSE m.d.n)
       [] f \in {"osum"} -> SumAgree(m.o, t, "sum", r)
       [] f = "ocount" -> REq(r, m.o.n)
       [] f = "omean" -> SumAgree(m.o, t, "mean", r)
       [] f = "xmax" -> SumAgree(m.o, t, "max", r)
       [] f = "omean_of_weights" -> SumAgree(m.o, t, "mean_of_weights", r)
       [] fam = "xw" /\ f = "mean_of_weights" -> SumAgree(m.o, t, f, r)
       [] fam = "xm" /\ f = "mean" -> SumAgree(m.o, t, "mean", r)
       [] f = "xvariance" -> XVariance(m, t, r)
       [] fam = "xc" -> SumAgree([m.d EXCEPT !.n = m.o.n, !.W = m.o.n], t, f, r)
       [] f = "osum_of_weights" -> SumAgree(m.o, t, "sum_of_weights", r)
       [] f \in {"ref", "ref2", "var"} -> REq(r, m.var)
       [] f \in {"val", "val2"} -> REq(r, m.val)
       [] fam = "xs" -> SumAgree(xs, t, f, r)
       [] fam = "xw" -> SumAgree(xw, t, f, r)
       [] OTHER -> SumAgree(m.d, t, f, r)
=============================================================================
