------------------------------ MODULE GenDag ------------------------------
(* Generated feature graphs, requests and histories for C08 and C09.       *)
(* Four scenarios share one graph (and one compiled set).                  *)
EXTENDS Gen

Nm(j) == <<"f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "f10", "f11", "f12">>[j]
VNm(j) == <<"v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10", "v11", "v12">>[j]
WNm(j) == <<"w1", "w2", "w3", "w4", "w5", "w6", "w7", "w8", "w9", "w10", "w11", "w12">>[j]

PerGraph == 4
G(s) == 100000 + ((s - 1) \div PerGraph)
NF(g) == IF Chance(g, 0, 50, 20) THEN Between(g, 0, 51, 9, 12) ELSE Between(g, 0, 51, 2, 8)
Density(g) == Pick(<<15, 30, 45, 70>>, g, 0, 52)
DepIdx(g, j) == {q \in 1..(j - 1) : Chance(g, j, 60 + q, Density(g))}
RECURSIVE CloseIdx(_, _)
CloseIdx(g, S) == LET U == S \cup UNION {DepIdx(g, j) : j \in S} IN IF U = S THEN S ELSE CloseIdx(g, U)
\* a variant depends on what its base depends on, and possibly on more of what that depends on
MoreIdx(g, j, salt) == LET D0 == DepIdx(g, j) IN D0 \cup {q \in CloseIdx(g, D0) : Chance(g, j, salt + q, 40)}

\* a sequence of the elements of S in an order drawn by the hash
RECURSIVE Shuffle(_, _, _, _)
Shuffle(S, g, k, j) == IF S = {} THEN <<>>
                       ELSE LET q == SetToSeq(S)
                                e == q[1 + Rnd(g, k, j, Len(q))]
                            IN <<e>> \o Shuffle(S \ {e}, g, k, j + 1)
NamesOf(S, g, k) == LET q == Shuffle(S, g, k, 110) IN [a \in 1..Len(q) |-> Nm(q[a])]

HasW(g) == Chance(g, 0, 53, 40)
Subst(g, j) == Chance(g, j, 54, 50)                    \* has a weighted substitute

ReqIdx(g) == LET n == NF(g)
                 k == Between(g, 0, 55, 1, Min2(n, IF Chance(g, 0, 49, 20) THEN 10 ELSE 5))
                 \* mostly from the top of the graph
             IN {q \in 1..n : \E a \in 1..k : q = Max2(1, n - Rnd(g, a, 56, 1 + n \div (1 + (a % 3))))}
Variant(g, j) == Chance(g, j, 57, 25)
MakeP(g) ==
  LET n == NF(g)
      r == Shuffle(ReqIdx(g), g, 0, 130)
      ent(j) == [t |-> IF Variant(g, j) THEN VNm(j) ELSE Nm(j), d |-> IF Chance(g, j, 58, 60) THEN "y" ELSE "n",
                 g |-> R(IF Chance(g, j, 59, 30) THEN 1 ELSE 0), m |-> IF Chance(g, j, 59 + 20, 30) THEN "y" ELSE "n"]
      once == [a \in 1..Len(r) |-> ent(r[a])]
      reqs == IF Chance(g, 0, 82, 25) THEN Append(once, once[1]) ELSE once            \* a repeated request
      tags == {Nm(j) : j \in 1..n} \cup {VNm(j) : j \in 1..n} \cup {WNm(j) : j \in 1..n}
      idx(t) == CHOOSE j \in 1..n : t \in {Nm(j), VNm(j), WNm(j)}
  IN [prov |-> [t \in tags |-> Nm(idx(t))],
      deps |-> [t \in tags |-> LET j == idx(t) IN
                  IF t = Nm(j) THEN NamesOf(DepIdx(g, j), g, j)
                  ELSE IF t = VNm(j) THEN NamesOf(MoreIdx(g, j, 300), g, 20 + j) ELSE NamesOf(MoreIdx(g, j, 400), g, 40 + j)],
      req |-> reqs, wt |-> IF HasW(g) THEN "y" ELSE "n",
      wsub |-> [t \in {Nm(j) : j \in {q \in 1..n : q = 1 \/ Subst(g, q)}} |-> WNm(idx(t))]]

CForms == << <<"none">>, <<"u", "v">>, <<"v", "u">>, <<"s", "u">>, <<"u", "s", "v">>, <<"v", "s", "u">>, <<"u">>, <<"s">>, <<"s", "v">>,
             <<"6", "s", "5", "u", "4", "3", "2", "1">>, <<"s", "1", "2", "3", "4", "5", "6", "v">> >>
PForms == << <<"x">>, <<"n">>, <<"x", "u", "v">>, <<"x", "v", "u">>, <<"x", "v">>, <<"u", "n", "v">>, <<"v", "u", "n">>,
             <<"x", "1", "2", "3", "4", "5", "6", "u", "v">>, <<"4", "u", "n", "5", "1">> >>
WForms == << <<"x", "w">>, <<"x", "w", "u">>, <<"x", "u", "w", "v">>, <<"w", "v", "n", "u">>, <<"v", "u", "w", "n">>, <<"x", "6", "w", "5", "u", "2", "v", "1">> >>
AForms == << <<"none">>, <<"u">>, <<"v">>, <<"v", "u">>, <<"3", "u", "1", "v">>, <<"1", "2", "3", "4", "5", "6", "u", "v">> >>

DagNew(o, s, k) ==
  [op |-> "new", o |-> o, k |-> "dag_" \o ToString(G(s) - 100000), fam |-> "dag", t |-> "int",
   p |-> [ctor |-> [form |-> Pick(CForms, s, k, 83), u |-> R(Between(s, k, 84, 0, 99)), v |-> R(Between(s, k, 85, 0, 99)), s |-> R(Between(s, k, 86, 0, 99))]]
         @@ MakeP(G(s))]
DagPushOp(o, s, k) ==
  [op |-> "push", o |-> o, x |-> R(Between(s, k, 87, 0, 99)), form |-> Pick(IF HasW(G(s)) THEN WForms ELSE PForms, s, k, 88),
   u |-> R(Between(s, k, 89, 0, 99)), v |-> R(Between(s, k, 90, 0, 99)), w |-> R(Between(s, k, 91, 1, 9))]
DagRead(o, f, F) == [op |-> "read", o |-> o, f |-> f, a |-> [f |-> F]]
DagAsk(o, s, k, F) == [op |-> "read", o |-> o, f |-> "got",
   a |-> [f |-> F, form |-> Pick(AForms, s, k, 94), u |-> R(Between(s, k, 95, 0, 99)), v |-> R(Between(s, k, 96, 0, 99))]]
MemSeq(o) == SetToSeq(objs[o].m.mem)
Undropped(o) == SetToSeq(Droppables(objs[o].p) \ objs[o].m.dropped)

DagBody == 30
\* C08 drops often and copies; C09 mostly feeds
DagOp(s) ==
  LET o == Pick(LiveNames, s, i, 14)
      o2 == Pick(<<"a", "b">>, s, i, 15)
      dice == Rnd(s, i, 16, 100)
      dropPct == IF Prop = "C08" THEN 14 ELSE 5
      j == i - DagBody
      n == Len(MemSeq("a"))
  IN IF i = 0 THEN DagNew("a", s, 0)
     ELSE IF i = 1 THEN DagRead("a", "members", "f1")
     ELSE IF i = 2 THEN DagRead("a", "order", "f1")
     ELSE IF i <= DagBody
     THEN IF dice < 45 THEN DagPushOp(o, s, i)
          ELSE IF dice < 60 THEN DagRead(o, "log", "f1")
          ELSE IF dice < 60 + dropPct /\ Undropped(o) # <<>> THEN [op |-> "drop", o |-> o, f |-> Pick(Undropped(o), s, i, 26)]
          ELSE IF dice >= 60 + dropPct /\ dice < 64 + dropPct THEN DagAsk(o, s, i, Pick(MemSeq(o), s, i, 93))
          ELSE IF dice < 82 THEN DagRead(o, Pick(<<"seen", "par", "ctor", "tag", "more", "more", "deps", "deps", "odd">>, s, i, 92), Pick(MemSeq(o), s, i, 93))
          ELSE IF dice < 86 /\ o2 # o THEN (IF o2 \in DOMAIN objs THEN [op |-> "assign", o |-> o2, from |-> o] ELSE [op |-> "copy", o |-> o2, from |-> o])
          ELSE IF dice < 88 THEN DagNew(o, s, i)
          ELSE DagRead(o, "log", "f1")
     ELSE IF j <= n THEN DagRead("a", "seen", MemSeq("a")[j])
     ELSE IF j <= 2 * n THEN DagRead("a", "tag", MemSeq("a")[j - n])
     ELSE IF j <= 3 * n THEN DagRead("a", "deps", MemSeq("a")[j - 2 * n])
     ELSE IF j = 3 * n + 1 THEN DagRead("a", "odd", "f1")
     ELSE DagRead("a", "log", "f1")

DagGenInit == sc \in 1..NScen /\ i = 0 /\ objs = <<>> /\ kd0 = "none"
DagEnd == IF i <= DagBody THEN DagBody + 1 ELSE DagBody + 3 * Len(MemSeq("a")) + 2
DagNext == i <= DagEnd /\ GenStep(DagOp(sc))
=============================================================================
