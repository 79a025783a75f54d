------------------------------ MODULE PSquare ------------------------------
(* The P^2 algorithm (Jain and Chlamtac) and its extensions, once for all: *)
(* M markers with target fractions inc[1..M]; single quantile, cumulative  *)
(* distribution and extended P^2 differ only in M and inc.  The weighted   *)
(* generalisation counts weight instead of samples; with unit weights it   *)
(* is the unweighted algorithm (checked in MCPSquare.tla).                 *)
(* Where a comparison is decided by rounding, a step has both outcomes.    *)
EXTENDS Rat, Density

PsqInit(inc, wt) == [M |-> Len(inc), inc |-> inc, wt |-> wt, n |-> 0, W |-> "0", init |-> <<>>,
                     h |-> <<>>, pos |-> <<>>, raw |-> <<>>, amb |-> FALSE, ch |-> 1, big |-> "0"]

IncQuantile(p) == <<"0", RDiv(p, "2"), p, RDiv(RAdd("1", p), "2"), "1">>
IncCdf(b) == [i \in 1..(b + 1) |-> RDiv(R(i - 1), R(b))]
\* principal markers 0, p_1 .. p_k, 1 with middle markers in between
IncExt(ps) == LET q == <<"0">> \o ps \o <<"1">>
              IN [i \in 1..(2 * Len(ps) + 3) |->
                    IF i % 2 = 1 THEN q[(i + 1) \div 2] ELSE RDiv(RAdd(q[i \div 2], q[i \div 2 + 1]), "2")]

RECURSIVE Cum(_, _)
Cum(s, k) == IF k = 0 THEN "0" ELSE RAdd(Cum(s, k - 1), s[k][2])

HEps(m) == RMul("1/10000000000", RAdd(m.big, "1/1000000"))

\* desired position of marker i
Desired(m, i) == IF m.wt THEN RAdd(m.pos[1], RMul(RSub(m.W, m.pos[1]), m.inc[i]))
                 ELSE RAdd("1", RMul(R(m.n - 1), m.inc[i]))
DesExact(m, i) == Exactly(m.inc[i]) /\ Exactly(Desired(m, i))

\* possible truth values of a <= b, when a or b carries rounding of size eps
Leq(a, b, exact, eps) == IF exact \/ RLt(eps, RAbs(RSub(a, b))) THEN {RLe(a, b)} ELSE BOOLEAN
Less(a, b, exact, eps) == IF exact \/ RLt(eps, RAbs(RSub(a, b))) THEN {RLt(a, b)} ELSE BOOLEAN

Rnd120(x) == RRound(x, 120)

\* possible outcomes for marker i
AdjustOne(m, i) ==
    LET d  == RSub(Desired(m, i), m.pos[i])
        dp == RSub(m.pos[i + 1], m.pos[i])
        dm == RSub(m.pos[i - 1], m.pos[i])
        dex == DesExact(m, i)
        peps == RMul("1/1000000000", RAdd(m.W, "1"))
        ups   == IF RLt("1", dp) THEN Leq("1", d, dex, peps) ELSE {FALSE}
        downs == IF RLt(dm, "-1") THEN Leq(d, "-1", dex, peps) ELSE {FALSE}
        eps == HEps(m)
        \* the three heights are samples: differences and the comparison of equal heights are exact
        allraw == m.raw[i - 1] /\ m.raw[i] /\ m.raw[i + 1]
        moved(s) ==
          LET hp == RDiv(RSub(m.h[i + 1], m.h[i]), dp)
              hm == RDiv(RSub(m.h[i - 1], m.h[i]), dm)
              par == Rnd120(RAdd(m.h[i], RMul(RDiv(s, RSub(dp, dm)),
                                   RAdd(RMul(RSub(s, dm), hp), RMul(RSub(dp, s), hm)))))
              lin == Rnd120(IF s = "1" THEN RAdd(m.h[i], hp) ELSE RSub(m.h[i], hm))
              flat == allraw /\ hp = "0" /\ hm = "0"
              inL == Less(m.h[i - 1], par, flat, eps)
              inR == Less(par, m.h[i + 1], flat, eps)
              hs == {par : b \in {b \in inL : b} \cap {b \in inR : b}}
                    \cup {lin : b \in {b \in inL : ~b} \cup {b \in inR : ~b}}
          IN {[m EXCEPT !.h[i] = v, !.pos[i] = RAdd(@, s), !.raw[i] = flat] : v \in hs}
        nexts == (IF TRUE \in ups THEN moved("1") ELSE {})
                 \cup (IF TRUE \in downs THEN moved("-1") ELSE {})
                 \cup (IF FALSE \in ups /\ FALSE \in downs THEN {m} ELSE {})
    IN nexts

\* markers i .. M - 1 in turn, for each of the states S; given up once there are too many (see PsqStep)
MaxChoices == 8
RECURSIVE Adjust(_, _, _)
Adjust(S, i, M) == IF i = M \/ Cardinality(S) > MaxChoices THEN S
                   ELSE Adjust(UNION {AdjustOne(q, i) : q \in S}, i + 1, M)

PsqMoves(m, x, w) ==
  LET m1 == [m EXCEPT !.n = @ + 1, !.W = RAdd(@, w), !.big = RMax(@, RAbs(x))]
  IN IF m1.n < m.M THEN {[m1 EXCEPT !.init = Insert(@, <<x, w>>)]}
     ELSE IF m1.n = m.M
     THEN LET s == Insert(m.init, <<x, w>>)
          IN {[m1 EXCEPT !.init = <<>>, !.h = [j \in 1..m.M |-> s[j][1]],
                         !.pos = [j \in 1..m.M |-> IF m.wt THEN Cum(s, j) ELSE R(j)],
                         !.raw = [j \in 1..m.M |-> TRUE],
                         !.amb = m.wt /\ \E j \in 1..(m.M - 1) : s[j][1] = s[j + 1][1] /\ s[j][2] # s[j + 1][2]]}
     ELSE LET M == m.M
              u == IF m.wt THEN w ELSE "1"
              eps == HEps(m1)
              sure(j)  == IF m1.raw[j] THEN RLe(m1.h[j], x) ELSE RLe(m1.h[j], RSub(x, eps))
              maybe(j) == IF m1.raw[j] THEN RLe(m1.h[j], x) ELSE RLe(m1.h[j], RAdd(x, eps))
              a == Cardinality({j \in 1..M : sure(j)})
              b == Cardinality({j \in 1..M : maybe(j)})
              bump(q, k) == [q EXCEPT !.pos = [j \in 1..M |-> IF j > k THEN RAdd(@[j], u) ELSE @[j]]]
              starts ==
                IF RLt(x, m1.h[1])
                THEN {bump([m1 EXCEPT !.h[1] = x, !.pos[1] = u], 1)}
                ELSE IF RLe(m1.h[M], x) THEN {bump([m1 EXCEPT !.h[M] = x], M - 1)}
                ELSE {bump(m1, k) : k \in (IF a < 1 THEN 1 ELSE a) .. (IF b > M - 1 THEN M - 1 ELSE b)}
          IN Adjust(starts, 2, M)

(* When undecided comparisons have multiplied to more than MaxChoices      *)
(* outcomes the specification stops following the algorithm: amb, the      *)
(* estimate is left open.  This bounds the branching of trace validation.  *)
PsqStep(m, x, w) ==
  IF m.amb THEN {[m EXCEPT !.n = @ + 1, !.W = RAdd(@, w)]}
  ELSE LET S == PsqMoves(m, x, w)
       IN IF Cardinality(S) = 1 THEN S
          ELSE IF m.ch * Cardinality(S) <= MaxChoices THEN {[q EXCEPT !.ch = @ * Cardinality(S)] : q \in S}
          ELSE {[m EXCEPT !.n = @ + 1, !.W = RAdd(@, w), !.amb = TRUE, !.h = <<>>, !.pos = <<>>, !.raw = <<>>]}

\* n equal samples
RECURSIVE PsqSteps(_, _, _, _)
PsqSteps(S, x, w, n) == IF n = 0 THEN S ELSE PsqSteps(UNION {PsqStep(m, x, w) : m \in S}, x, w, n - 1)

PsqReady(m) == m.n >= m.M
PTol(t) == IF t = "float" THEN "1/1000" ELSE "1/10000000"
HNear(m, t, r, v) == RFin(r) /\ RNear(r, v, PTol(t), m.big)

\* single quantile: the middle marker
PsqQuantile(m, t, r) == (PsqReady(m) /\ ~m.amb) => HNear(m, t, r, m.h[3])

\* cumulative distribution: pairs (height, position share)
PsqCdf(m, t, r) ==
  (PsqReady(m) /\ ~m.amb) =>
     /\ IsList(r)
     /\ Len(r) = 2 * m.M
     /\ \A j \in 1..m.M : /\ HNear(m, t, r[2 * j - 1], m.h[j])
                          /\ RFin(r[2 * j]) /\ RNear(r[2 * j], RDiv(m.pos[j], m.W), PTol(t), "1")

PsqCdfMedian(m, t, r) ==
  (PsqReady(m) /\ ~m.amb) =>
     LET f(j) == RDiv(m.pos[j], m.W)
     IN /\ RFin(r)
        /\ \/ RLe(RSub("1/2", PTol(t)), f(1)) /\ HNear(m, t, r, m.h[1])
           \/ \E j \in 2..m.M : Half(m.h[j - 1], f(j - 1), m.h[j], f(j), r, PTol(t), m.big)

\* extended: the principal markers
ExtHeights(m) == [j \in 1..((m.M - 3) \div 2) |-> m.h[2 * j + 1]]
ExtProbs(m) == [j \in 1..((m.M - 3) \div 2) |-> m.inc[2 * j + 1]]
PsqExt(m, t, r) ==
  (PsqReady(m) /\ ~m.amb) =>
     /\ IsList(r) /\ Len(r) = Len(ExtHeights(m))
     /\ \A j \in 1..Len(r) : HNear(m, t, r[j], ExtHeights(m)[j])

Lagrange(p, q, h, a, b, c) ==     \* the parabola through three markers
  RAdd(RAdd(RMul(h[a], RDiv(RMul(RSub(p, q[b]), RSub(p, q[c])), RMul(RSub(q[a], q[b]), RSub(q[a], q[c])))),
            RMul(h[b], RDiv(RMul(RSub(p, q[a]), RSub(p, q[c])), RMul(RSub(q[b], q[a]), RSub(q[b], q[c]))))),
       RMul(h[c], RDiv(RMul(RSub(p, q[a]), RSub(p, q[b])), RMul(RSub(q[c], q[a]), RSub(q[c], q[b])))))

PsqExtQuantile(m, t, quad, p, r) ==
  LET q == ExtProbs(m)
      h == ExtHeights(m)
      K == Len(q)
      j == Cardinality({i \in 1..K : RLt(q[i], p)}) + 1          \* q[j-1] < p <= q[j]
      near(v) == RFin(r) /\ RNear(r, v, RMul("100", PTol(t)), m.big)
      dl == RSub(p, q[j - 1])
      dr == RSub(q[j], p)
      up == Lagrange(p, q, h, j - 1, j, j + 1)
      dn == Lagrange(p, q, h, j - 2, j - 1, j)
  IN IF RLt(p, q[1]) \/ RLt(q[K], p) THEN r = "nan"
     ELSE (PsqReady(m) /\ ~m.amb) =>
       IF REq(p, q[j]) THEN near(h[j])
       ELSE IF ~quad THEN near(RAdd(h[j - 1], RMul(RSub(h[j], h[j - 1]), RDiv(dl, RSub(q[j], q[j - 1])))))
       ELSE IF j = 2 THEN near(up)
       ELSE IF j = K THEN near(dn)
       ELSE IF RNear(dl, dr, "1/1000000000", "1") /\ ~(Exactly(p) /\ Exactly(q[j]) /\ Exactly(q[j - 1]))
            THEN near(up) \/ near(dn)
       ELSE IF RLe(dr, dl) THEN near(up) ELSE near(dn)
=============================================================================
