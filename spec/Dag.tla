-------------------------------- MODULE Dag --------------------------------
(* Dependency resolution and dropping, for any feature graph.              *)
(*   p.prov   tag -> the feature it provides (variants provide the same)   *)
(*   p.deps   tag -> the features it depends on                            *)
(*   p.req    requested tags in order: [t |-> tag, d |-> "y" droppable]    *)
(*   p.wt     "y" when the set has a weight type; then p.wsub maps tags to *)
(*            the tags that replace them                                   *)
(* An accumulator is named by the feature it provides.                     *)
EXTENDS Rat, Summary, Sequences, FiniteSets, Integers

Range0(s) == {s[j] : j \in 1..Len(s)}

ReqTag(p, j) == p.req[j].t
Weighted(p, t) == IF p.wt = "y" /\ t \in DOMAIN p.wsub THEN p.wsub[t] ELSE t
\* the tag whose accumulator provides feature F in the set
Actual(p, F) == LET R0 == {j \in 1..Len(p.req) : p.prov[ReqTag(p, j)] = F}
                IN Weighted(p, IF R0 = {} THEN F ELSE ReqTag(p, CHOOSE j \in R0 : \A k \in R0 : j <= k))
DepsOf(p, F) == Range0(p.deps[Actual(p, F)])

Requested(p) == {p.prov[ReqTag(p, j)] : j \in 1..Len(p.req)}
RECURSIVE CloseUnder(_, _)
CloseUnder(p, S) == LET T == S \cup UNION {DepsOf(p, F) : F \in S}
                    IN IF T = S THEN S ELSE CloseUnder(p, T)
Members(p) == CloseUnder(p, Requested(p))
Droppables(p) == {p.prov[ReqTag(p, j)] : j \in {k \in 1..Len(p.req) : p.req[k].d = "y"}}

\* an argument given by name, "-1" when the form does not name it; kN carries u + N
Given(e, name) == IF name \in Range0(e.form) THEN e[name] ELSE "-1"
KNames == <<"1", "2", "3", "4", "5", "6">>
More(e) == [j \in 1..6 |-> IF KNames[j] \in Range0(e.form) THEN RAdd(e.u, R(j)) ELSE "-1"]
CtorMore(p) == IF "ctor" \in DOMAIN p THEN More(p.ctor) ELSE <<"-1", "-1", "-1", "-1", "-1", "-1">>

DagStart(p) == [p |-> p, mem |-> Members(p), dropped |-> {}, last |-> {},
               reach |-> [F \in Requested(p) |-> CloseUnder(p, {F})],
               seen |-> [F \in Members(p) |-> <<>>],
               par |-> [F \in Members(p) |-> <<"-1", "-1", "-1">>],
               more |-> [F \in Members(p) |-> CtorMore(p)]]

\* an accumulator is live while some requested feature that has not been dropped needs it
LiveSet(m) == UNION {m.reach[F] : F \in (DOMAIN m.reach) \ m.dropped}

DagPush(m, e) ==
  LET L == LiveSet(m)
  IN [m EXCEPT !.last = L,
               !.seen = [F \in m.mem |-> IF F \in L THEN Append(@[F], e.x) ELSE @[F]],
               !.par = [F \in m.mem |-> IF F \in L THEN <<Given(e, "u"), Given(e, "v"), Given(e, "w")>> ELSE @[F]],
               !.more = [F \in m.mem |-> IF F \in L THEN More(e) ELSE @[F]]]
DagDrop(m, F) == [m EXCEPT !.dropped = @ \cup {F}]

OddNames == {"f1", "f3", "f5", "f7", "f9", "f11"}
OddOf(m) == m.mem \cap OddNames
Before(r, j) == {r[k] : k \in 1..(j - 1)}
DagAgree(m, f, a, r) ==
  IsList(r) /\
  CASE f = "members" -> Len(r) = Cardinality(m.mem) /\ Range0(r) = m.mem
    [] f = "log" -> /\ Len(r) = Cardinality(m.last) /\ Range0(r) = m.last
                    /\ \A j \in 1..Len(r) : DepsOf(m.p, r[j]) \subseteq Before(r, j)
    [] f = "order" -> /\ Len(r) = Cardinality(m.mem) /\ Range0(r) = m.mem
                      /\ \A j \in 1..Len(r) : DepsOf(m.p, r[j]) \subseteq Before(r, j)
    [] f = "seen" -> r = m.seen[a.f]
    [] f = "par" -> r = m.par[a.f]
    [] f = "ctor" -> r = <<Given(m.p.ctor, "u"), Given(m.p.ctor, "v"), Given(m.p.ctor, "s")>>
    [] f = "tag" -> r = <<Actual(m.p, a.f)>>
    \* visiting only the accumulators that satisfy a predicate
    [] f = "odd" -> /\ Len(r) = Cardinality(OddOf(m)) /\ Range0(r) = OddOf(m)
                    /\ \A j \in 1..Len(r) : (DepsOf(m.p, r[j]) \cap OddOf(m)) \subseteq Before(r, j)
    [] f = "more" -> r = m.more[a.f]
    \* arguments of an extractor reach the accumulator
    [] f = "got" -> r = <<Given(a, "u"), Given(a, "v")>> \o More(a)
    \* an accumulator finds each of its dependencies in the set it is in
    [] f = "deps" -> r = LET d == m.p.deps[Actual(m.p, a.f)] IN [j \in 1..Len(d) |-> R(Len(m.seen[d[j]]))]
    [] OTHER -> FALSE

(* Library features with droppable members: what each of the component     *)
(* accumulators has seen decides the results (the mean after a drop is the *)
(* sum by the count as they stand).  p.req, p.wt as above.                 *)
LibDeps(wt) ==
  [count |-> <<>>, sum |-> <<>>, sum_of_weights |-> <<>>, max |-> <<>>, min |-> <<>>,
   mean |-> IF wt = "y" THEN <<"sum_of_weights", "sum">> ELSE <<"count", "sum">>,
   cmean |-> <<"count", "sum">>,                          \* a lazy mean that keeps the result it has when it is dropped
   imean |-> IF wt = "y" THEN <<"sum_of_weights">> ELSE <<"count">>,
   moment2 |-> IF wt = "y" THEN <<"count", "sum_of_weights">> ELSE <<"count">>,
   moment3 |-> IF wt = "y" THEN <<"count", "sum_of_weights">> ELSE <<"count">>,
   lvar |-> <<"moment2", "mean">>, ivar |-> <<"count", "mean">>,
   skew |-> <<"mean", "moment2", "moment3">>]
LibProv == [count |-> "count", sum |-> "sum", sum_of_weights |-> "sum_of_weights", max |-> "max", min |-> "min",
            mean |-> "mean", imean |-> "mean", cmean |-> "mean", moment2 |-> "moment2", moment3 |-> "moment3",
            lvar |-> "variance", ivar |-> "variance", skew |-> "skewness"]
LibP(p) == [req |-> p.req, wt |-> "n", deps |-> LibDeps(p.wt), prov |-> LibProv]
\* features named as in LibProv; "variance" is only reached by request, "mean" by request or as a dependency
LibStart(p) ==
  LET q == LibP(p)
      act(F) == CASE \E j \in 1..Len(q.req) : q.prov[ReqTag(q, j)] = F -> Actual(q, F)
                  [] F = "mean" /\ \E j \in 1..Len(q.req) : ReqTag(q, j) = "ivar" -> "imean"
                  [] OTHER -> F
      deps(F) == Range0(q.deps[act(F)])
      step(S) == S \cup UNION {deps(F) : F \in S}
      close(S) == step(step(step(step(S))))
      mem == close(Requested(q))
  IN [mem |-> mem, dropped |-> {}, act |-> [F \in mem |-> act(F)],
      reach |-> [F \in Requested(q) |-> close({F})],
      h |-> [F \in mem |-> SumInit], kept |-> <<>>]

LibPush(m, x, w) == LET L == LiveSet(m)
                    IN [m EXCEPT !.h = [F \in m.mem |-> IF F \in L THEN SumStep(@[F], x, w, "0", "1") ELSE @[F]]]

\* the state of a lazily evaluated feature: what its components have seen
LibComp(m, wt) ==
  LET H(F) == IF F \in m.mem THEN m.h[F] ELSE SumInit
      S(j) == CASE j = 1 -> H("sum") [] j = 2 -> H("moment2") [] OTHER -> H("moment3")
  IN [SumInit EXCEPT !.n = H("count").n, !.W = IF wt = "y" THEN H("sum_of_weights").W ELSE H("count").n,
                     !.S = [j \in 1..SumK |-> S(j).S[j]], !.A = [j \in 1..SumK |-> S(j).A[j]]]
\* dropping; an accumulator with a cached result keeps the result it has when nothing needs it any more
LibDrop(m, wt, F) ==
  LET m2 == DagDrop(m, F)
      stops == "mean" \in m.mem /\ m.act["mean"] = "cmean" /\ "mean" \in LiveSet(m) /\ "mean" \notin LiveSet(m2)
  IN IF stops THEN [m2 EXCEPT !.kept = <<LibComp(m, wt)>>] ELSE m2

LibAgree(m, wt, t, f, r) ==
  LET H(F) == IF F \in m.mem THEN m.h[F] ELSE SumInit
      comp == LibComp(m, wt)
      own(F) == F \in m.mem /\ m.act[F] \in {"imean", "ivar", "max", "min", "sum", "sum_of_weights", "count"}
      F0 == IF f \in {"mean", "variance", "skewness", "moment2", "moment3", "sum", "max", "min", "count", "sum_of_weights"} THEN f ELSE "count"
      \* a lazily evaluated feature over an incrementally evaluated mean
      meanOf == IF "mean" \in m.mem /\ m.act["mean"] = "imean" THEN H("mean") ELSE comp
      viaImean == F0 \in {"variance", "skewness"} /\ ~own(F0) /\ "mean" \in m.mem /\ m.act["mean"] = "imean"
  IN IF own(F0) THEN SumAgree(H(F0), t, f, r)
     ELSE IF f = "mean" /\ m.kept # <<>> THEN SumAgree(m.kept[1], t, f, r)
     ELSE IF F0 = "variance" /\ m.kept # <<>> THEN TRUE
     ELSE IF viaImean THEN TRUE
     ELSE SumAgree(comp, t, f, r)
=============================================================================
