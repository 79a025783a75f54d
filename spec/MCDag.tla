-------------------------------- MODULE MCDag --------------------------------
(* Every dependency graph over n features, every request list, every       *)
(* sequence of drops: the library's reference counts (one count per        *)
(* dependency path from a requested feature, released along the same       *)
(* paths) feed exactly the accumulators some live request needs.           *)
EXTENDS Dag, SequencesExt, FiniteSetsExt
CONSTANTS NF, MaxReq
F0 == 1..NF
Nm(j) == <<"f1", "f2", "f3", "f4", "f5">>[j]
Names == {Nm(j) : j \in F0}
VARIABLES m, isd, ref
vars == <<m, isd, ref>>

Edges == {e \in F0 \X F0 : e[2] < e[1]}
\* requests: distinct features in any order, each droppable or plain
ReqsOf(k) == {r \in [1..k -> [t : Names, d : {"y", "n"}]] : \A a, b \in 1..k : a # b => r[a].t # r[b].t}
P(G, r) == [req |-> r, wt |-> "n", wsub |-> <<>>, prov |-> [t \in Names |-> t],
            deps |-> [t \in Names |-> LET j == CHOOSE j \in F0 : Nm(j) = t IN SetToSeq({Nm(e[2]) : e \in {e \in G : e[1] = j}})]]

PlainReq(p) == {p.req[j].t : j \in {k \in 1..Len(p.req) : p.req[k].d = "n"}}
ReachPlain(p) == CloseUnder(p, PlainReq(p))
\* which accumulators are droppable: requested so, or reached from droppable ones; either where both kinds reach it
Kinds(p) == {f \in [Members(p) -> BOOLEAN] :
               \A F \in Members(p) : /\ F \in Droppables(p) => f[F]
                                     /\ F \in PlainReq(p) => ~f[F]
                                     /\ (F \notin Requested(p) /\ F \notin ReachPlain(p)) => f[F]}
RECURSIVE Paths(_, _, _)
Paths(p, A, B) == IF A = B THEN 1 ELSE FoldSet(LAMBDA d, acc : acc + Paths(p, d, B), 0, DepsOf(p, A))
RefStart(p) == [F \in Members(p) |-> FoldSet(LAMBDA q, acc : acc + Paths(p, q, F), 0, Requested(p))]
\* releases along the dependency paths, but not past an accumulator that is not droppable
RECURSIVE Release(_, _, _, _)
Release(p, d, r, F) == IF ~d[F] THEN r
                       ELSE FoldSet(LAMBDA q, acc : Release(p, d, acc, q), [r EXCEPT ![F] = @ - 1], DepsOf(p, F))

Init == \E G \in SUBSET Edges, k \in 1..MaxReq : \E r \in ReqsOf(k) :
           /\ m = DagStart(P(G, r))
           /\ isd \in Kinds(m.p)
           /\ ref = RefStart(m.p)
Drop(F) == /\ m' = DagDrop(m, F)
           /\ ref' = Release(m.p, isd, ref, F)
           /\ UNCHANGED isd
Next == \E F \in Droppables(m.p) \ m.dropped : Drop(F)
Spec == Init /\ [][Next]_vars

Fed == {F \in m.mem : ~isd[F] \/ ref[F] > 0}
Exact == Fed = LiveSet(m)
NonNeg == \A F \in m.mem : ref[F] >= 0
Closed == /\ \A F \in m.mem : DepsOf(m.p, F) \subseteq m.mem
          /\ Requested(m.p) \subseteq m.mem
          /\ \A F \in m.mem : F \in Requested(m.p) \/ \E H \in m.mem : F \in DepsOf(m.p, H)
          /\ \A F \in LiveSet(m) : DepsOf(m.p, F) \subseteq LiveSet(m)      \* a live accumulator never lacks a dependency
\* some order visits everything after its dependencies, and the specification accepts exactly such orders
Sq == SetToSeq(m.mem)
Orders == {s \in [1..Len(Sq) -> m.mem] : \A a, b \in 1..Len(Sq) : a # b => s[a] # s[b]}
Ordered == m.dropped = {} =>
   /\ \E s \in Orders : DagAgree(m, "order", <<>>, s)
   /\ \A s \in Orders : DagAgree(m, "order", <<>>, s) = (\A a, b \in 1..Len(s) : s[b] \in DepsOf(m.p, s[a]) => b < a)
=============================================================================
