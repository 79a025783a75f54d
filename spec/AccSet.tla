------------------------------- MODULE AccSet -------------------------------
(* The state machine of a program that uses accumulator sets.              *)
(*                                                                         *)
(* objs maps the name of every live accumulator set to a record            *)
(*   k    kind (which accumulator_set type)                                *)
(*   fam  family of the kind: which operators below give it meaning        *)
(*   t    sample type                                                      *)
(*   p    construction parameters                                          *)
(*   m    abstract state: a function of the history of pushed samples      *)
(* An operation is a record e; e.op names the action.  Observations (the   *)
(* results of read operations) never appear in the state: a set's results  *)
(* are a function of its history.                                          *)
EXTENDS Rat, Summary, Rolling, Tails, Density, PSquare, Dag, External, Vector, Kahan, Numeric, TLC

VARIABLE objs

Fields(e) == DOMAIN e
Has(e, f) == f \in DOMAIN e
Opt(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
NoA == [p |-> "0", v |-> "1"]
ArgsOf(e) == Opt(e, "a", NoA)

--------------------------------------------------------------------------
(* Family dispatch: initial abstract state, set of possible successors of  *)
(* a push, acceptable observations.                                        *)
ExtFams == {"xs", "xw", "xr", "xc", "xm"}
InitM(fam, p) ==
  CASE fam = "sum" -> SumInit
    [] fam = "var" -> <<SumInit, SumInit>>
    [] fam = "kah" -> SumInit
    [] fam \in ExtFams -> ExtInit(p)
    [] fam = "vec" -> VecInit(p)
    [] fam = "vecr" -> VecRInit(p)
    [] fam \in {"vsc", "vvc"} -> VCovInit(p)
    [] fam = "roll" -> RollInit(p)
    [] fam \in {"tail", "potp", "wpotp"} -> TailInit(p)
    [] fam = "potv" -> TailInit([N |-> "1", side |-> p.side])
    [] fam = "dens" -> DensInit(p)
    [] fam = "dag" -> DagStart(p)
    [] fam = "dlib" -> LibStart(p)
    [] fam = "psq" -> PsqInit(IncQuantile(R(p.q)), FALSE)
    [] fam = "wpsq" -> PsqInit(IncQuantile(R(p.q)), TRUE)
    [] fam = "psqmed" -> PsqInit(IncQuantile("1/2"), FALSE)
    [] fam = "wpsqmed" -> PsqInit(IncQuantile("1/2"), TRUE)
    [] fam = "cdf" -> PsqInit(IncCdf(RFloor(p.b)), FALSE)
    [] fam = "wcdf" -> PsqInit(IncCdf(RFloor(p.b)), TRUE)
    [] fam \in {"ext", "extl", "extq"} -> PsqInit(IncExt([j \in 1..Len(p.ps) |-> R(p.ps[j])]), FALSE)
    [] fam \in {"wext", "wextl", "wextq"} -> PsqInit(IncExt([j \in 1..Len(p.ps) |-> R(p.ps[j])]), TRUE)

PsqFams == {"psq", "wpsq", "psqmed", "wpsqmed", "cdf", "wcdf", "ext", "extl", "extq", "wext", "wextl", "wextq"}
TailFams == {"tail", "potv", "potp", "wpotp"}

StepM(ob, e) ==
  LET fam == ob.fam
      w == Opt(e, "w", "1")
      c == Opt(e, "c", <<>>)
      n == Opt(e, "n", "1")
  IN CASE fam = "sum" -> {SumStep(ob.m, e.x, w, "0", n)}
       [] fam = "var" -> {<<SumStep(ob.m[1], e.x, w, c[1], n), SumStep(ob.m[2], e.x, w, c[2], n)>>}
       [] fam = "kah" -> {SumStep(ob.m, e.x, w, c[1], n)}
       [] fam \in ExtFams -> {ExtPush(ob.m, e.who, e.x, w)}
       [] fam = "vec" -> {VecStep(ob.m, e.x, w, n)}
       [] fam = "vecr" -> {VecRStep(ob.m, e.x, n)}
       [] fam = "vsc" -> {VCovStep(ob.m, <<e.x>>, w, c, n)}
       [] fam = "vvc" -> {VCovStep(ob.m, e.x, w, c, n)}
       [] fam = "roll" -> {RollStep(ob.m, e.x, n)}
       [] fam \in TailFams -> {TailSteps(ob.m, e.x, w, c, n)}
       [] fam = "dens" -> {DensSteps(ob.m, e.x, w, n)}
       [] fam = "dag" -> {DagPush(ob.m, e)}
       [] fam = "dlib" -> {LibPush(ob.m, e.x, w)}
       [] fam \in PsqFams -> PsqSteps({ob.m}, e.x, w, RFloor(n))

CountM(ob) ==
  CASE ob.fam = "sum" -> ob.m.n
    [] ob.fam = "var" -> ob.m[1].n
    [] ob.fam \in {"roll", "kah"} -> ob.m.n
    [] ob.fam \in ExtFams -> ob.m.d.n
    [] ob.fam \in {"vec", "vecr"} -> ob.m[1].n
    [] ob.fam \in {"vsc", "vvc"} -> ob.m[1][1].n
    [] ob.fam \in TailFams -> R(Len(ob.m.ent))
    [] OTHER -> R(ob.m.n)

\* weight seen so far
WeightM(ob) ==
  CASE ob.fam \in {"sum", "kah"} -> ob.m.W
    [] ob.fam = "vec" -> ob.m[1].W
    [] ob.fam \in {"vsc", "vvc"} -> ob.m[1][1].W
    [] ob.fam = "var" -> ob.m[1].W
    [] ob.fam \in PsqFams \cup {"dens"} -> ob.m.W
    [] ob.fam \in TailFams -> ob.m.W
    [] ob.fam = "dlib" -> IF ob.p.wt = "y" THEN (IF "sum_of_weights" \in ob.m.mem THEN ob.m.h["sum_of_weights"].W ELSE "0") ELSE "1"
    [] OTHER -> "1"

AgreeM(ob, f, a, r) ==
  LET fam == ob.fam
      m == ob.m
      t == ob.t
  IN IF fam = "dag" THEN DagAgree(m, f, a, r)
     ELSE IF fam = "dlib" THEN ~IsList(r) /\ LibAgree(m, ob.p.wt, t, f, r)
     ELSE IF f = "count" /\ fam \notin ExtFams THEN ~IsList(r) /\ REq(r, CountM(ob))
     ELSE CASE fam = "sum" -> SumAgree(m, t, f, r)
       [] fam = "var" -> SumAgree(m[RFloor(a.v)], t, f, r)
       [] fam = "kah" -> KahAgree(m, t, f, r)
       [] fam \in ExtFams -> ExtAgree(fam, m, t, f, r)
       [] fam = "vec" -> VecAgree(m, t, f, r)
       [] fam = "vecr" -> VecRAgree(m, t, f, r)
       [] fam \in {"vsc", "vvc"} -> VCovAgree(m, t, fam = "vsc", f, r)
       [] fam = "roll" -> RollAgree(m, t, f, r)
       [] fam = "tail" -> TailAgree(m, t, f, a, r)
       [] fam = "potv" -> PotVAgree(m, t, ob.p, f, a, r)
       [] fam = "potp" -> PotPAgree(m, t, ob.p, FALSE, f, a, r)
       [] fam = "wpotp" -> PotPAgree(m, t, ob.p, TRUE, f, a, r)
       [] fam = "dens" -> IF f = "density" THEN DensOk(m, t, r) ELSE DensMedian(m, t, r)
       [] fam \in {"psq", "wpsq", "psqmed", "wpsqmed"} -> PsqQuantile(m, t, r)
       [] fam \in {"cdf", "wcdf"} -> IF f = "cdf" THEN PsqCdf(m, t, r) ELSE PsqCdfMedian(m, t, r)
       [] fam \in {"ext", "extl", "extq", "wext", "wextl", "wextq"} ->
            IF f = "ext" THEN PsqExt(m, t, r)
            ELSE PsqExtQuantile(m, t, fam \in {"extq", "wextq"}, R(a.p), r)
       [] OTHER -> FALSE

\* two results that must be the same up to rounding
SameVal(a, b) == a = b \/ (RFin(a) /\ RFin(b) /\ a \notin {"throw", "ok"} /\ b \notin {"throw", "ok"}
                           /\ RNear(a, b, "1/1000000000", RAdd("1", RAdd(RAbs(a), RAbs(b)))))
SameRes(a, b) == IF ~IsList(a) THEN ~IsList(b) /\ SameVal(a, b)
                 ELSE IsList(b) /\ Len(a) = Len(b) /\ \A j \in 1..Len(a) : SameVal(a[j], b[j])
Undetermined(ob, f) == ob.fam \in TailFams /\ f \notin TieFree /\ Ambiguous(ob.m)

--------------------------------------------------------------------------
(* Actions.                                                                *)
Set(o, v) == objs' = [q \in DOMAIN objs \cup {o} |-> IF q = o THEN v ELSE objs[q]]

New(e) == Set(e.o, [k |-> e.k, fam |-> e.fam, t |-> e.t, p |-> e.p, m |-> InitM(e.fam, e.p)])

Push(e) == /\ e.o \in DOMAIN objs
           /\ \E m2 \in StepM(objs[e.o], e) : Set(e.o, [objs[e.o] EXCEPT !.m = m2])

\* a copy, an assignment or a save/load pair makes the target's history that of the source
Copy(e) == e.from \in DOMAIN objs /\ Set(e.o, objs[e.from])

\* dropping a requested droppable feature
DropM(ob, f) == IF ob.fam = "dlib" THEN LibDrop(ob.m, ob.p.wt, f) ELSE DagDrop(ob.m, f)
Drop(e) == /\ e.o \in DOMAIN objs
           /\ Set(e.o, [objs[e.o] EXCEPT !.m = DropM(objs[e.o], e.f)])

Del(e) == objs' = [q \in DOMAIN objs \ {e.o} |-> objs[q]]

Reset == objs' = <<>>

\* reading leaves every object as it was
Read(e) == e.o \in DOMAIN objs /\ UNCHANGED objs

Apply(e) ==
  CASE e.op = "new" -> New(e)
    [] e.op = "push" -> Push(e)
    [] e.op \in {"copy", "assign", "persist"} -> Copy(e)
    [] e.op = "del" -> Del(e)
    [] e.op = "drop" -> Drop(e)
    [] e.op = "reset" -> Reset
    [] e.op \in {"read", "same"} -> Read(e)
    [] e.op = "call" -> UNCHANGED objs

\* an observation recorded from the implementation is one the specification allows; no operation may fail to come back,
\* not even one whose result is left open
Agrees(e) ==
  "died" \notin DOMAIN e /\
  CASE e.op = "read" -> AgreeM(objs[e.o], e.f, ArgsOf(e), e.r)
    [] e.op = "same" ->
         LET x == objs[e.o]
             y == objs[e.o2]
         IN /\ IsList(e.r) /\ Len(e.r) = 2
            /\ AgreeM(x, e.f, ArgsOf(e), e.r[1])
            /\ AgreeM(y, e.f, ArgsOf(e), e.r[2])
            /\ (x = y /\ ~Undetermined(x, e.f)) => SameRes(e.r[1], e.r[2])
    [] e.op = "call" -> CallAgree(e.fn, e.lt, e.rt, e.a.x, e.a.y, e.r)
    [] OTHER -> e.r = "ok"
=============================================================================
