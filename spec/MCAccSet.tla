------------------------------ MODULE MCAccSet ------------------------------
(* All interleavings of samples, copies, assignments, saves, drops, reads  *)
(* and destruction over three sets: what a set answers is a function of    *)
(* its own history, where a copied (assigned, loaded) set starts with the  *)
(* history of its source.                                                  *)
EXTENDS AccSet
CONSTANTS MaxOps, Fams
VARIABLES hist, nops
vars == <<objs, hist, nops>>
Objs == {"a", "b", "c"}
Par(f) == CASE f = "roll" -> [N |-> "2"] [] f = "tail" -> [N |-> "2", side |-> "right"] [] f = "dens" -> [C |-> "2", B |-> "2"]
            [] f = "dlib" -> [wt |-> "n", req |-> <<[t |-> "cmean", d |-> "y"], [t |-> "sum", d |-> "y"]>>] [] OTHER -> [z |-> "0"]
E0(op, o) == [op |-> op, o |-> o, from |-> o, x |-> "0", f |-> "count", c |-> <<>>]
Ev == [op : {"new"}, o : Objs, fam : Fams] \cup [op : {"push"}, o : Objs, x : {"1", "3"}]
      \cup [op : {"copy", "assign", "persist"}, o : Objs, from : Objs] \cup [op : {"del"}, o : Objs]
      \cup [op : {"read"}, o : Objs, f : {"count"}] \cup [op : {"drop"}, o : Objs, f : {"mean", "sum"}]
Full(e) == IF e.op = "new" THEN [op |-> "new", o |-> e.o, k |-> e.fam, fam |-> e.fam, t |-> "double", p |-> Par(e.fam)] ELSE e
Enabled(e) ==
  CASE e.op = "new" -> TRUE
    [] e.op = "push" -> e.o \in DOMAIN objs
    [] e.op \in {"copy", "assign", "persist"} -> e.from \in DOMAIN objs /\ (e.op = "assign" => (e.o \in DOMAIN objs /\ objs[e.o].fam = objs[e.from].fam))
    [] e.op = "drop" -> e.o \in DOMAIN objs /\ objs[e.o].fam = "dlib" /\ e.f \notin objs[e.o].m.dropped
    [] OTHER -> e.o \in DOMAIN objs
HistAfter(e) ==
  CASE e.op = "new" -> <<>>
    [] e.op \in {"push", "drop"} -> Append(hist[e.o], e)
    [] e.op \in {"copy", "assign", "persist"} -> hist[e.from]
    [] OTHER -> hist[e.o]
Init == objs = <<>> /\ hist = [o \in Objs |-> <<>>] /\ nops = 0
Next == /\ nops < MaxOps
        /\ \E e \in Ev : /\ Enabled(e)
                         /\ Apply(Full(e))
                         /\ hist' = [hist EXCEPT ![e.o] = HistAfter(e)]
        /\ nops' = nops + 1
Spec == Init /\ [][Next]_vars
\* replaying an object's own history on a fresh set
OneStep(ob, e) == IF e.op = "drop" THEN [ob EXCEPT !.m = DropM(ob, e.f)] ELSE [ob EXCEPT !.m = CHOOSE q \in StepM(ob, e) : TRUE]
Replay(o) == FoldLeft(OneStep, [objs[o] EXCEPT !.m = InitM(objs[o].fam, objs[o].p)], hist[o])
HistoryOnly == \A o \in DOMAIN objs : objs[o] = Replay(o)
\* an operation on one set leaves the others alone; reading changes nothing
Others == [][\A o \in DOMAIN objs : (hist'[o] = hist[o] /\ o \in DOMAIN objs' /\ objs'[o].fam = objs[o].fam) => objs'[o] = objs[o]]_vars
=============================================================================
