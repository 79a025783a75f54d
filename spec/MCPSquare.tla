------------------------------ MODULE MCPSquare ------------------------------
(* Laws of the P-square markers on every short stream, and: with unit      *)
(* weights the weighted algorithm is the unweighted one.                   *)
EXTENDS PSquare
CONSTANTS MaxLen, Xs
VARIABLES hist, u, w
vars == <<hist, u, w>>
Incs == {IncQuantile("1/2"), IncQuantile("1/4"), IncCdf(4), IncExt(<<"1/2">>)}
Init == hist = <<>> /\ \E i \in Incs : u = PsqInit(i, FALSE) /\ w = PsqInit(i, TRUE)
Next == /\ Len(hist) < MaxLen
        /\ \E x \in Xs : /\ hist' = Append(hist, x)
                         /\ u' \in PsqStep(u, x, "1")
                         /\ w' \in PsqStep(w, x, "1")
                         /\ u'.h = w'.h /\ u'.pos = w'.pos         \* both take the same branch where rounding decides
Spec == Init /\ [][Next]_vars
M == u.M
Known == PsqReady(u) /\ ~u.amb
vals == {hist[j] : j \in 1..Len(hist)}
Markers == Known =>
   /\ \A j \in 1..(M - 1) : RLe(u.h[j], u.h[j + 1]) /\ RLt(u.pos[j], u.pos[j + 1])
   /\ u.pos[1] = "1" /\ u.pos[M] = R(Len(hist))
   /\ u.h[1] = CHOOSE v \in vals : \A q \in vals : RLe(v, q)
   /\ u.h[M] = CHOOSE v \in vals : \A q \in vals : RLe(q, v)
\* with unit weights the weighted algorithm has the same possible successors
Shape(S) == {<<q.h, q.pos>> : q \in S}
Unit == \A x \in Xs : Shape(PsqStep(u, x, "1")) = Shape(PsqStep(w, x, "1"))
Exactly5 == (Known /\ Len(hist) = M) => \A j \in 1..M : Cardinality({k \in 1..M : RLt(hist[k], u.h[j])}) < j /\ Cardinality({k \in 1..M : RLe(hist[k], u.h[j])}) >= j
Constant == (Known /\ Cardinality(vals) = 1) => \A j \in 1..M : u.h[j] = hist[1]
=============================================================================
