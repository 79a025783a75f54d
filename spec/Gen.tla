-------------------------------- MODULE Gen --------------------------------
(* Scenario generation: behaviours of AccSet, one per scenario number,     *)
(* every choice a hash of (seed, scenario, step, draw).                    *)
(* Mode  stat     one set; samples and reads in any order                  *)
(*       purity   two sets fed alike, only one of them read in between     *)
(*       copy     copies and assignments at any point, then divergence     *)
(*       persist  save and load at any point, then equal continuations     *)
EXTENDS AccSet, Catalog, Json, IOUtils

Seed  == atoi(IOEnv.SEED)
NScen == atoi(IOEnv.NSCEN)
Scale == atoi(IOEnv.SCALE)              \* 1 for the quick tier, more for the thorough one
Prop  == IOEnv.PROP
Mode  == IOEnv.MODE

VARIABLES sc, i,
          kd0            \* the kind of set the scenario is about
gvars == <<objs, sc, i, kd0>>

Rnd(s, k, j, n) == Hash(Hash(Seed, s, 77, 1073741824), k, j, n)
Pick(seq, s, k, j) == seq[1 + Rnd(s, k, j, Len(seq))]
Chance(s, k, j, pct) == Rnd(s, k, j, 100) < pct
Between(s, k, j, a, b) == a + Rnd(s, k, j, b - a + 1)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

IsInt(t)  == t \in {"int", "short", "longlong", "unsigned"}
IsUns(t)  == t = "unsigned"

(* Sample values by style.                                                 *)
Styles == <<"small", "dyadic", "dups", "asc", "desc", "const", "pos", "neg", "wide", "real", "zero", "alt", "far", "outlier", "runs", "big", "micro", "giant">>
Giant == RPow("2", 150)                  \* only double and longer types can hold the powers
\* of either sign, or all of one
Signed(s, k, j, n) == LET d == Rnd(s, 0, 905, 3) IN Between(s, k, j, IF d = 1 THEN 1 ELSE -n, IF d = 2 THEN -1 ELSE n)
PotOff(s) == Pick(<<"0", "0", "-20", "7">>, s, 0, 903)             \* where a peaks-over-threshold stream lies
RawVal(style, s, k, j) ==
  CASE style = "small"  -> R(Between(s, k, j, -9, 9))
    [] style = "dyadic" -> RDiv(R(Between(s, k, j, -64, 64)), "8")
    [] style = "dups"   -> R(Between(s, k, j, -1, 2))
    [] style = "asc"    -> RAdd(R(k), RDiv(R(Between(s, k, j, 0, 3)), "4"))
    [] style = "desc"   -> RSub("40", RAdd(R(k), RDiv(R(Between(s, k, j, 0, 3)), "4")))
    [] style = "const"  -> R(Between(s, 0, 901, -5, 5))
    [] style = "pos"    -> RAdd("11", RDiv(R(Between(s, k, j, 0, 40)), "4"))
    [] style = "neg"    -> RNeg(RAdd("3", RDiv(R(Between(s, k, j, 0, 40)), "4")))
    [] style = "wide"   -> RMul(R(Between(s, k, j, -15, 15)), RPow("2", Between(s, k, j + 1000, -12, 12)))
    [] style = "real"   -> RFlt(RDiv(R(Between(s, k, j, -1000000, 1000000)), "99991"))
    [] style = "zero"   -> IF Chance(s, k, j, 70) THEN "0" ELSE R(Between(s, k, j + 1000, -2, 2))
    [] style = "alt"    -> IF k % 2 = 0 THEN R(Between(s, k, j, 1, 6)) ELSE R(Between(s, k, j, -6, -1))
    [] style = "far"    -> RAdd(R(1000 * Between(s, 0, 902, -3, 3)), RDiv(R(Between(s, k, j, -96, 96)), "4"))
    [] style = "outlier" -> IF Chance(s, k, j, 88) THEN R(Between(s, k, j + 1000, -4, 4)) ELSE R(Between(s, k, j + 1000, -1200, 1200))
    [] style = "runs"   -> R(Between(s, k \div 5, j, -6, 6))                              \* the same sample several times in a row
    [] style = "big"    -> RMul(R(Signed(s, k, j, 1000)), RPow("2", 30))
    [] style = "giant"  -> RMul(R(Signed(s, k, j, 1000)), Giant)
    [] style = "micro"  -> RMul(R(Signed(s, k, j, 500)), RPow("2", -30))
    [] style = "lim"    -> IF Chance(s, k, j, 50) THEN R(Between(s, k, j + 1000, -9, 9))    \* the ends of the type's range, see Fit
                           ELSE RAdd(IF Chance(s, k, j + 2000, 50) THEN R("1e30") ELSE R("-1e30"), R(Between(s, k, j + 1000, -3, 3)))
    [] style = "skew"   -> LET q == Between(s, k, j, 0, 90) IN RAdd(RDiv(R(q * q), "256"), PotOff(s))
    [] style = "skewneg" -> LET q == Between(s, k, j, 0, 90) IN RNeg(RAdd(RDiv(R(q * q), "256"), PotOff(s)))

\* fit a value to the sample type
LimOf(t) == IF t = "short" THEN "32767" ELSE IF t = "int" THEN "2147483647" ELSE IF t = "unsigned" THEN "4294967295" ELSE "9223372036854775807"
RECURSIVE Fit(_, _)
Fit(v, t) == IF t \notin {"double", "longdouble"} /\ RLt(R("1e40"), RAbs(v)) THEN Fit(RDiv(v, Giant), t)
             ELSE IF IsInt(t) /\ RLt(R("1e20"), RAbs(v))              \* style lim: count from the end of the range
             THEN (IF RSgn(v) > 0 THEN RSub(LimOf(t), RAbs(RSub(v, R("1e30"))))
                   ELSE IF IsUns(t) THEN RAbs(RAdd(v, R("1e30")))
                   ELSE RAdd(RSub("-1", LimOf(t)), RAbs(RAdd(v, R("1e30")))))
             ELSE IF IsInt(t) /\ RLt(R("100000"), RAbs(v))        \* style big
             THEN LET q == R(RFloor(RDiv(v, IF t = "short" THEN RPow("2", 32) ELSE RPow("2", 28)))) IN IF IsUns(t) THEN RAbs(q) ELSE q
             ELSE IF IsUns(t) THEN RTrunc(RAbs(v))
             ELSE IF IsInt(t) THEN (IF RLt("1500", RAbs(v)) THEN R(RFloor(RDiv(v, "1024"))) ELSE RTrunc(v))
             ELSE v

\* a number that identifies x
KeyOf(x) == (IF RLt(RAbs(x), "1/16384") THEN RFloor(RMul(x, RPow("2", 30)))
             ELSE IF RLt(R("1e40"), RAbs(x)) THEN RFloor(RDiv(x, Giant))
             ELSE IF RLt("10000000", RAbs(x)) THEN RFloor(RDiv(x, RPow("2", 24))) ELSE RFloor(RMul(x, "64"))) % 1000003
\* weights: non-negative, zero only once some weight has been seen; "ofx" makes equal samples weigh alike
WVal(style, x, s, k, j) ==
  CASE style = "one"   -> "1"
    [] style = "int"   -> R(Between(s, k, j, 1, 6))
    [] style = "frac"  -> RDiv(R(Between(s, k, j, 1, 16)), "4")
    [] style = "zeros" -> IF Chance(s, k, j, 30) THEN "0" ELSE R(Between(s, k, j, 1, 4))
    [] style = "tiny"  -> RDiv(R(Between(s, k, j, 1, 12)), "32")
    [] style = "heavy" -> IF Chance(s, k, j, 12) THEN R(Between(s, k, j + 500, 50, 2000)) ELSE R(Between(s, k, j, 1, 3))
    [] style = "ofxt"  -> RDiv(R(1 + Hash(KeyOf(x), s, 5, 12)), "16")
    [] style = "ofxh"  -> IF Hash(KeyOf(x), s, 6, 8) = 0 THEN R(20 + Hash(KeyOf(x), s, 7, 400)) ELSE R(1 + Hash(KeyOf(x), s, 5, 3))
    [] style = "ofxd"  -> IF Hash(KeyOf(x), s, 5, 2) = 0 THEN "1/2" ELSE "1"
    [] style = "ofx"   -> R(1 + Hash(KeyOf(x), s, 5, 6))
    [] style = "ofxf"  -> RDiv(R(1 + Hash(KeyOf(x), s, 5, 16)), "4")

NoP == [z |-> "0"]                      \* no parameters (an empty record is not JSON-stable)

------------------------------------------------------------------------------
(* What a scenario is about.                                               *)
KindNo(cat, s) == cat[1 + ((s - 1 + Hash(Seed, 3, 3, Len(cat))) % Len(cat))]
KD(s) == kd0

StyleOf(kd, s) ==
  CASE kd.fam \in {"potv", "potp", "wpotp"} -> IF kd.side = "right" THEN "skew" ELSE "skewneg"
    [] kd.fam = "sum" /\ ~kd.w /\ IsInt(kd.t) /\ Chance(s, 0, 3, 12) -> "lim"
    [] OTHER -> Pick(Styles, s, 0, 4)
WStyleOf(kd, s) ==
  CASE kd.t = "int" /\ kd.fam \in {"sum", "vec"} -> Pick(<<"one", "int", "int", "zeros">>, s, 0, 5)
    [] kd.fam = "sum" /\ kd.k \in {"wlazy_double_int", "wimm_double_int", "wexp_double_int", "wexpi_double_int",
                                   "wlazy_double_unsigned", "wimm_double_unsigned", "wexp_double_unsigned", "wexpi_double_unsigned"}
         -> Pick(<<"one", "int", "int", "zeros">>, s, 0, 5)
    [] kd.fam = "dlib" -> Pick(<<"one", "int", "int", "zeros">>, s, 0, 5)
    [] kd.fam \in {"sum", "var", "vec", "vsc", "vvc"} -> Pick(<<"one", "int", "frac", "zeros", "tiny", "heavy">>, s, 0, 5)
    [] kd.fam = "tail" -> Pick(<<"ofx", "ofxf", "ofx", "int", "ofxt", "ofxh">>, s, 0, 5)
    [] kd.fam = "wpotp" -> Pick(<<"ofx", "ofxf", "ofxt", "ofxh">>, s, 0, 5)
    [] kd.fam = "dens" -> Pick(<<"one", "int", "frac", "zeros", "tiny", "heavy">>, s, 0, 5)
    [] kd.fam \in PsqFams -> Pick(<<"one", "ofx", "ofxf", "ofxt", "ofxd", "ofxh">>, s, 0, 5)
    [] OTHER -> Pick(<<"one", "int", "frac">>, s, 0, 5)

ExtSets == << <<"1/4", "1/2", "3/4">>, <<"1/8", "1/4", "1/2", "7/8">>, <<"1/2">>, <<"1/16", "15/16">>, <<"1/10", "3/10", "1/2", "9/10">>,
              <<"5/8", "3/4", "7/8", "15/16">>, <<"1/100", "1/2", "99/100">>, <<"1/8", "1/4", "3/8", "1/2", "5/8">> >>
ExtQSets == SelectSeq(ExtSets, LAMBDA q : Len(q) >= 3)
ExtLSets == SelectSeq(ExtSets, LAMBDA q : Len(q) >= 2)

DyP(s, k, j) == IF Chance(s, k, j, 80) THEN RDiv(R(Between(s, k, j + 1, 1, 31)), "32")
                ELSE Pick(<<"1/10", "3/10", "7/10", "9/10", "99/100", "1/100", "1/1000", "999/1000">>, s, k, j + 1)

\* now and then a long stream and large caches, windows, bin counts
Long(kd, s) == Hash(Seed, s, 99, 17) = 0
LongTo(a, b) == IF Mode = "stat" THEN b ELSE a

ParamOf(kd, s, k) ==
  CASE kd.fam \in {"sum", "var", "psqmed", "wpsqmed"} -> NoP
    [] kd.fam = "roll" /\ Long(kd, s) -> [N |-> R(Between(s, k, 32, 15, LongTo(30, 140)))]
    [] kd.fam = "tail" /\ Long(kd, s) -> [N |-> R(Between(s, k, 31, 13, LongTo(30, 120))), side |-> kd.side]
    [] kd.fam = "dens" /\ Long(kd, s) -> [C |-> R(Between(s, k, 31, 11, LongTo(25, 100))), B |-> R(Between(s, k, 32, 9, LongTo(20, 64)))]
    [] kd.fam \in {"cdf", "wcdf"} /\ Long(kd, s) -> [b |-> Pick(<<"32", "20", "64", "10">>, s, k, 31)]
    [] kd.fam \in {"ext", "wext", "extl", "wextl", "extq", "wextq"} /\ Long(kd, s) -> [ps |-> [q \in 1..15 |-> RDiv(R(q), "16")]]
    [] kd.fam = "roll" -> [N |-> R(IF Chance(s, k, 31, 10) THEN Between(s, k, 32, 9, 20 * Scale) ELSE IF Chance(s, k, 33, 4) THEN 0 ELSE Between(s, k, 32, 1, 7))]
    [] kd.fam = "tail" -> [N |-> R(Between(s, k, 31, 1, 12)), side |-> kd.side]
    [] kd.fam = "potv" -> [thr |-> RMul(IF kd.side = "left" THEN "-1" ELSE "1",
                                   RAdd(PotOff(s), IF kd.t = "int" THEN R(Between(s, k, 31, 1, 9)) ELSE RDiv(R(Between(s, k, 31, 2, 30)), "4"))), side |-> kd.side]
    [] kd.fam \in {"potp", "wpotp"} ->
         LET share == Between(s, k, 32, 2, 24)
         IN [N |-> R(IF Long(kd, s) THEN Between(s, k, 31, 21, 90) ELSE Between(s, k, 31, 3, 20)), side |-> kd.side,
             tp |-> IF kd.side = "left" THEN RDiv(R(share), "32") ELSE RDiv(R(32 - share), "32")]
    [] kd.fam \in {"kah", "xs", "xw", "xc", "xm"} -> NoP
    [] kd.fam = "xr" -> [var |-> R(Between(s, k, 31, -9, 9)), val |-> R(Between(s, k, 32, -9, 9))]
    [] kd.fam = "vec" -> [tmp |-> R(Rnd(s, k, 33, 2)), dim |-> IF kd.side = "complex" THEN "2" ELSE R(IF Chance(s, k, 35, 15) THEN Between(s, k, 31, 5, 20) ELSE Between(s, k, 31, 1, 4))]
    [] kd.fam = "vecr" -> [tmp |-> R(Rnd(s, k, 33, 2)), dim |-> IF kd.side = "complex" THEN "2" ELSE R(Between(s, k, 31, 1, 3)), N |-> R(Between(s, k, 32, 1, 5))]
    [] kd.fam = "vsc" -> [tmp |-> R(Rnd(s, k, 33, 2)), dim |-> "1", cdim |-> R(IF Chance(s, k, 35, 15) THEN Between(s, k, 31, 5, 20) ELSE Between(s, k, 31, 1, 4))]
    [] kd.fam = "vvc" -> [tmp |-> R(Rnd(s, k, 33, 2)), dim |-> R(IF Chance(s, k, 35, 10) THEN Between(s, k, 31, 4, 7) ELSE Between(s, k, 31, 1, 3)), cdim |-> R(IF Chance(s, k, 36, 10) THEN Between(s, k, 32, 4, 9) ELSE Between(s, k, 32, 1, 3))]
    [] kd.fam = "dlib" -> LibReq(kd.k)
    [] kd.fam = "dens" -> [C |-> R(Between(s, k, 31, 1, 10)), B |-> R(Between(s, k, 32, 1, 8))]
    [] kd.fam \in {"psq", "wpsq"} -> [q |-> DyP(s, k, 31)]
    [] kd.fam \in {"cdf", "wcdf"} -> [b |-> Pick(<<"2", "4", "8", "4", "8", "3", "5", "16">>, s, k, 31)]
    [] kd.fam \in {"extq", "wextq"} -> [ps |-> Pick(ExtQSets, s, k, 31)]
    [] kd.fam \in {"extl", "wextl"} -> [ps |-> Pick(ExtLSets, s, k, 31)]
    [] kd.fam \in {"ext", "wext"} -> [ps |-> Pick(ExtSets, s, k, 31)]

NumPush(kd, s) ==
  CASE Long(kd, s) /\ kd.fam \in {"roll", "tail", "dens", "sum", "var", "vec", "vecr", "vsc", "vvc", "xs", "xw", "xc", "xm"} \cup PsqFams ->
         IF Mode = "stat" THEN Between(s, 0, 1, 120, 260) ELSE Between(s, 0, 1, 30, 60)
    [] s % 12 = 0 /\ kd.fam \in {"sum", "var", "roll"} -> 60
    [] kd.fam \in PsqFams -> Between(s, 0, 1, 4, 40) * Scale
    [] kd.fam \in {"potv", "potp", "wpotp"} -> IF Long(kd, s) /\ Mode = "stat" THEN Between(s, 0, 1, 80, 160) ELSE Between(s, 0, 1, 6, 40)
    [] kd.fam = "dens" -> Between(s, 0, 1, 2, 26)
    [] kd.fam = "tail" -> Between(s, 0, 1, 1, 24)
    [] OTHER -> Between(s, 0, 1, 1, 16)

\* what must hold for a result to be read at all (documented or needed to be defined)
Readable(ob, f) ==
  CASE f = "density_median" -> ob.m.n >= ob.m.C /\ RSgn(ob.m.W) > 0
    [] f = "cdf_median" -> ob.m.n >= ob.m.M
    [] f \in {"tvm", "rtvm", "wtvm", "wrtvm"} -> TRUE
    [] OTHER -> TRUE

\* arguments of a read
TailArg(ob, s, k) ==
  LET n == Len(ob.m.ent)
      top == IF n = 0 THEN 32 ELSE Min2(32, Max2(2, (48 * ob.m.N) \div n))
      q == IF Chance(s, k, 41, 85) THEN RDiv(R(Between(s, k, 42, IF Chance(s, k, 43, 10) THEN 0 ELSE 1, top)), "32")
           ELSE Pick(<<"1/10", "1/5", "3/10", "1/100", "9/10">>, s, k, 42)
  IN IF ob.m.side = "left" THEN q ELSE RSub("1", q)
ExtArg(ob, s, k) ==
  IF Chance(s, k, 41, 35) THEN Pick(ob.p.ps, s, k, 42)
  ELSE RDiv(R(Between(s, k, 42, 0, 64)), "64")
PotArg(ob, s, k) == RDiv(R(IF ob.m.side = "left" THEN Between(s, k, 42, 1, 8) ELSE Between(s, k, 42, 24, 31)), "32")
ArgFor(kd, ob, f, s, k) ==
  CASE f \in {"quantile", "nctm", "ctm", "tvm", "rtvm", "wquantile", "wnctm", "wtvm", "wrtvm"} -> [p |-> TailArg(ob, s, k)]
    [] f = "ext_quantile" -> [p |-> ExtArg(ob, s, k)]
    [] f \in {"pot_quantile", "pot_tail_mean"} -> [p |-> PotArg(ob, s, k)]
    [] kd.fam = "var" -> [v |-> IF kd.side = "none" THEN R(Between(s, k, 42, 1, 2)) ELSE kd.side]
    [] OTHER -> NoP

NewOp(o, kd, s, k) == [op |-> "new", o |-> o, k |-> kd.k, fam |-> kd.fam, t |-> kd.t, p |-> ParamOf(kd, s, k)]

\* a burst of equal samples: only where the type's own arithmetic stays exact enough
Burst(kd, s, k) == IF kd.fam = "kah" /\ Chance(s, k, 9, 40) THEN R(Between(s, k, 10, 100, 4000))
                   ELSE IF kd.fam \in {"sum", "var"} /\ kd.t \in {"double", "longdouble"} /\ Chance(s, k, 9, 3)
                   THEN R(Between(s, k, 10, 2, 70000))
                   ELSE IF kd.fam = "roll" /\ Chance(s, k, 9, 3) THEN R(IF Chance(s, k, 11, 80) THEN Between(s, k, 10, 2, 40) ELSE Between(s, k, 10, 200, 70000))
                   ELSE IF kd.fam = "dens" /\ Chance(s, k, 9, 3) THEN R(IF Chance(s, k, 11, 60) THEN Between(s, k, 10, 2, 20) ELSE Between(s, k, 10, 100, 70000))
                   ELSE IF kd.fam \in {"tail", "potp", "wpotp"} /\ Chance(s, k, 9, 2) THEN R(IF Chance(s, k, 11, 80) THEN Between(s, k, 10, 2, 20) ELSE Between(s, k, 10, 100, 700))
                   ELSE IF kd.fam \in PsqFams /\ Chance(s, k, 9, 2) THEN R(IF Chance(s, k, 11, 80) THEN Between(s, k, 10, 2, 8) ELSE Between(s, k, 10, 30, 120))
                   ELSE "1"

\* compensated sums: now and then a large sample, many small ones
KahVal(t, s, k, j) ==
  LET big == IF t = "float" THEN Between(s, k, j + 1, 8, 18) ELSE Between(s, k, j + 1, 20, 45)
  IN CASE Chance(s, k, j, 15) -> RMul(R(Between(s, k, j + 2, -3, 3)), RPow("2", big))
       [] Chance(s, k, j + 3, 50) -> RFlt(RDiv(R(Between(s, k, j + 4, 1, 100000)), "99991"))
       [] OTHER -> RFlt(RDiv(R(Between(s, k, j + 5, -100000, 100000)), "1399991"))
KahW(t, s, k, j) == IF Chance(s, k, j, 15) THEN RPow("2", Between(s, k, j + 1, 4, 12)) ELSE RFlt(RDiv(R(Between(s, k, j + 2, 1, 1000)), "999"))
KahPush(o, kd, s, v, k) ==
  LET j == 100 * v + 6
      x == KahVal(kd.t, s, k, j)
      c == <<KahVal(kd.t, s, k, j + 20)>>
  IN IF kd.w THEN [op |-> "push", o |-> o, x |-> x, w |-> KahW(kd.t, s, k, j + 40), c |-> c, n |-> Burst(kd, s, k)]
     ELSE [op |-> "push", o |-> o, x |-> x, c |-> c, n |-> Burst(kd, s, k)]

\* two sets fed together, or one of them, in either order
Who(kd, s, k) ==
  CASE kd.k \in {"xwti_double", "xwti_int", "xwvi_double", "xwvi_int"} -> "b"
    [] kd.fam = "xr" -> Pick(<<"d", "d", "v", "r">>, s, k, 27)
    [] OTHER -> Pick(<<"b", "c", "b", "d", "o">>, s, k, 27)
XPush(o, kd, s, v, k) ==
  LET x == Fit(RawVal(StyleOf(kd, s), s, k, 100 * v + 6), kd.t)
  IN IF kd.w THEN [op |-> "push", o |-> o, who |-> Who(kd, s, k), x |-> x, w |-> WVal(WStyleOf(kd, s), x, s, k, 100 * v + 16)]
     ELSE [op |-> "push", o |-> o, who |-> Who(kd, s, k), x |-> x]

\* samples with components; every component has a style of its own
VecOf(kd, n, s, k, j) == [q \in 1..n |-> Fit(RawVal(Styles[1 + Rnd(s, q, j, Len(Styles))], s, k, j + 200 * q), kd.t)]
VecPush(o, kd, s, v, k) ==
  LET j == 100 * v + 6
      p == objs[o].p
      x == IF kd.fam = "vsc" THEN VecOf(kd, 1, s, k, j)[1] ELSE VecOf(kd, Dim(p), s, k, j)
      c == VecOf(kd, CDim(p), s, k, j + 50)
      w0 == WVal(WStyleOf(kd, s), "1", s, k, j + 10)
      w == IF w0 = "0" /\ RSgn(WeightM(objs[o])) = 0 THEN "2" ELSE w0
  IN IF kd.fam \in {"vsc", "vvc"}
     THEN IF kd.w THEN [op |-> "push", o |-> o, tmp |-> R(Rnd(s, k, 34, 2)), x |-> x, w |-> w, c |-> c] ELSE [op |-> "push", o |-> o, tmp |-> R(Rnd(s, k, 34, 2)), x |-> x, c |-> c]
     ELSE IF kd.w THEN [op |-> "push", o |-> o, tmp |-> R(Rnd(s, k, 34, 2)), x |-> x, w |-> w] ELSE [op |-> "push", o |-> o, tmp |-> R(Rnd(s, k, 34, 2)), x |-> x]

\* the k-th sample of stream number v of scenario s, pushed to o
PushOp(o, kd, s, v, k) ==
  IF kd.fam = "kah" THEN KahPush(o, kd, s, v, k)
  ELSE IF kd.fam \in ExtFams THEN XPush(o, kd, s, v, k)
  ELSE IF kd.fam \in {"vec", "vecr", "vsc", "vvc"} THEN VecPush(o, kd, s, v, k)
  ELSE
  LET j == 100 * v + 6
      x == Fit(RawVal(StyleOf(kd, s), s, k, j), kd.t)
      base == [op |-> "push", o |-> o, x |-> x, n |-> Burst(kd, s, k)]
      w0 == WVal(WStyleOf(kd, s), x, s, k, j + 10)
      w == IF w0 = "0" /\ RSgn(WeightM(objs[o])) = 0 THEN "2" ELSE w0     \* a zero weight only after a positive one
      cv(q) == IF kd.fam = "tail" /\ WStyleOf(kd, s) \in {"ofx", "ofxf", "ofxt", "ofxh"} /\ Chance(s, 0, 8, 70)
               THEN RDiv(R(Hash(KeyOf(x), s, 50 + q, 33) - 8), "2")
               ELSE Fit(RawVal(Pick(<<"small", "dyadic", "dups", "pos">>, s, 0, 7), s, k, j + 20 + q), IF kd.fam = "var" THEN VariateT(kd) ELSE kd.t)
      c == [q \in 1..kd.cd |-> cv(q)]
  IN IF kd.w /\ kd.cd > 0 THEN [op |-> "push", o |-> o, x |-> x, w |-> w, c |-> c, n |-> Burst(kd, s, k)]
     ELSE IF kd.w THEN [op |-> "push", o |-> o, x |-> x, w |-> w, n |-> Burst(kd, s, k)]
     ELSE IF kd.cd > 0 THEN [op |-> "push", o |-> o, x |-> x, c |-> c, n |-> Burst(kd, s, k)]
     ELSE base

\* read feature f if it can be read now, the count otherwise
ReadOp(o, kd, f, s, k) ==
  IF Readable(objs[o], f) THEN [op |-> "read", o |-> o, f |-> f, a |-> ArgFor(kd, objs[o], f, s, k)]
  ELSE [op |-> "read", o |-> o, f |-> "count", a |-> NoP]
SameOp(o, o2, kd, f, s, k) ==
  IF Readable(objs[o], f) /\ Readable(objs[o2], f)
  THEN [op |-> "same", o |-> o, o2 |-> o2, f |-> f, a |-> ArgFor(kd, objs[o], f, s, k)]
  ELSE [op |-> "same", o |-> o, o2 |-> o2, f |-> "count", a |-> NoP]
RandRead(o, kd, s, k) == ReadOp(o, kd, Pick(kd.feats, s, k, 7), s, k)

Rounds(kd) == IF kd.fam \in {"tail", "potv", "potp", "wpotp", "extl", "extq", "wextl", "wextq"} THEN 3 ELSE 1
FinalF(kd, j) == kd.feats[1 + ((j - 1) % Len(kd.feats))]
FinalLen(kd) == Rounds(kd) * Len(kd.feats)

------------------------------------------------------------------------------
(* stat                                                                    *)
StatPct(s) == IF Long(KD(s), s) THEN Pick(<<96, 98, 100>>, s, 0, 12) ELSE Pick(<<50, 50, 85, 100>>, s, 0, 12)
\* now and then everything is read after the first sample
Early(s) == IF Chance(s, 0, 29, 25) THEN Len(KD(s).feats) ELSE 0
StatBody(s) == Early(s) + (NumPush(KD(s), s) * 100) \div StatPct(s)
StatOp(s) ==
  LET kd == KD(s) IN
  IF i = 0 THEN NewOp("a", kd, s, 0)
  ELSE IF i <= StatBody(s)
       THEN IF i > 1 /\ i <= 1 + Early(s) THEN ReadOp("a", kd, FinalF(kd, i - 1), s, i)
            ELSE IF i = 1 \/ Chance(s, i, 13, StatPct(s)) THEN PushOp("a", kd, s, 0, i) ELSE RandRead("a", kd, s, i)
       ELSE ReadOp("a", kd, FinalF(kd, i - StatBody(s)), s, i)
StatEnd(s) == StatBody(s) + FinalLen(KD(s))

(* purity: step 2k-1 feeds a, step 2k feeds b the same sample; reads of a  *)
(* come in between                                                         *)
PurBody(s) == 4 * NumPush(KD(s), s)
PurOp(s) ==
  LET kd == KD(s) IN
  IF i = 0 THEN NewOp("a", kd, s, 0)
  ELSE IF i = 1 THEN NewOp("b", kd, s, 0)
  ELSE IF i <= 1 + PurBody(s)
       THEN LET k == (i - 2) \div 4
                r == (i - 2) % 4
            IN CASE r = 0 -> PushOp("a", kd, s, 0, k + 1)
                 [] r = 1 -> PushOp("b", kd, s, 0, k + 1)
                 [] OTHER -> RandRead("a", kd, s, i)
       ELSE SameOp("a", "b", kd, FinalF(kd, i - 1 - PurBody(s)), s, i)
PurEnd(s) == 1 + PurBody(s) + FinalLen(KD(s))

(* copy: three sets; which operation comes next is drawn at every step     *)
CopyBody(s) == 2 * NumPush(KD(s), s) + 12
Names == <<"a", "b", "c">>
\* features of o that may be dropped now
CanDrop(o) == IF objs[o].fam = "dlib"
              THEN SetToSeq({LibProv[objs[o].p.req[j].t] : j \in {q \in 1..Len(objs[o].p.req) : objs[o].p.req[q].d = "y"}} \ objs[o].m.dropped)
              ELSE <<>>
LiveNames == SelectSeq(Names, LAMBDA o : o \in DOMAIN objs)
CopyOp(s) ==
  LET kd == KD(s)
      o == Pick(LiveNames, s, i, 14)
      o2 == Pick(Names, s, i, 15)
      dice == Rnd(s, i, 16, 100)
      Body == CopyBody(s)
      j == i - Body
      L == LiveNames
  IN IF i = 0 THEN NewOp("a", kd, s, 0)
     ELSE IF i <= Body
     THEN IF i <= 3 THEN PushOp(o, kd, s, 0, i)
          ELSE IF kd.fam = "dlib" /\ Chance(s, i, 25, 9) /\ CanDrop(o) # <<>>
               THEN [op |-> "drop", o |-> o, f |-> Pick(CanDrop(o), s, i, 26)]
          ELSE IF dice < 50 THEN PushOp(o, kd, s, Rnd(s, i, 17, 3), i)
          ELSE IF dice < 78 THEN RandRead(o, kd, s, i)
          ELSE IF dice < 86 THEN (IF o2 = o /\ kd.k \notin NoAssignKind THEN [op |-> "assign", o |-> o, from |-> o]
                                  ELSE [op |-> "copy", o |-> o2, from |-> o])
          ELSE IF dice < 95 THEN (IF o2 \in DOMAIN objs /\ kd.k \notin NoAssignKind THEN [op |-> "assign", o |-> o2, from |-> o]
                                  ELSE [op |-> "copy", o |-> o2, from |-> o])
          ELSE IF dice < 98 \/ Len(L) = 1 THEN NewOp(o2, kd, s, i)
          ELSE [op |-> "del", o |-> o]
     ELSE LET n == FinalLen(kd) IN ReadOp(L[1 + ((j - 1) \div n)], kd, FinalF(kd, j), s, i)
CopyEnd(s) == CopyBody(s) + FinalLen(KD(s)) * Len(LiveNames)

(* persist: a, saved to b at some point (c saved from b later), equal      *)
(* continuations                                                           *)
PreLen(s) == Rnd(s, 0, 18, NumPush(KD(s), s) + 1)
PostLen(s) == Max2(2, NumPush(KD(s), s) - PreLen(s))
Fmt(kd, s, k) == Pick(<<"text", "binary">>, s, k, 19)
\* steps that give the target of the save a history (and possibly parameters) of its own
UsedOwn(s) == Pick(<<0, 3, 12, 30>>, s, 0, 23)
Used(s) == IF Chance(s, 0, 22, 60) THEN 1 + UsedOwn(s) + (IF UsedOwn(s) > 0 THEN Len(KD(s).feats) ELSE 0) ELSE 0
\* the source is not read before it is saved: nothing it caches is up to date
Unread(s) == Chance(s, 0, 28, 40)
PersOp(s) ==
  LET kd == KD(s)
      A == PreLen(s)                                 \* 1..A: samples and reads on a
      B0 == 2 * A + 1
      B == B0 + Used(s)                              \* the save
      n == PostLen(s)
      j == i - B - 1
  IN IF i = 0 THEN NewOp("a", kd, s, 0)
     ELSE IF i < B0 THEN (IF i % 2 = 1 THEN PushOp("a", kd, s, 0, i)
                          ELSE IF kd.fam = "dlib" /\ Chance(s, i, 25, 20) /\ CanDrop("a") # <<>> THEN [op |-> "drop", o |-> "a", f |-> Pick(CanDrop("a"), s, i, 26)]
                          ELSE IF Unread(s) THEN PushOp("a", kd, s, 0, i)
                          ELSE RandRead("a", kd, s, i))
     ELSE IF i < B THEN (IF i = B0 THEN NewOp("b", kd, s, Pick(<<0, 3>>, s, 0, 24))
                         ELSE IF i > B0 + UsedOwn(s) THEN ReadOp("b", kd, FinalF(kd, i - B0 - UsedOwn(s)), s, i)     \* its caches are up to date
                         ELSE IF kd.fam = "dlib" /\ Chance(s, i, 27, 15) /\ CanDrop("b") # <<>> THEN [op |-> "drop", o |-> "b", f |-> Pick(CanDrop("b"), s, i, 26)]
                         ELSE IF Chance(s, i, 25, 70) THEN PushOp("b", kd, s, 1, i) ELSE RandRead("b", kd, s, i))
     ELSE IF i = B THEN [op |-> "persist", o |-> "b", from |-> "a", fmt |-> Fmt(kd, s, 0), into |-> IF Used(s) > 0 THEN "used" ELSE "fresh"]
     ELSE IF j < Len(kd.feats) THEN SameOp("a", "b", kd, FinalF(kd, j + 1), s, i)
     ELSE LET q == j - Len(kd.feats) IN
          IF q = 0 THEN (IF Chance(s, i, 20, 50) THEN [op |-> "persist", o |-> "b", from |-> "b", fmt |-> Fmt(kd, s, i), into |-> "fresh"]
                         ELSE [op |-> "copy", o |-> "c", from |-> "b"])
          ELSE IF q <= 3 * n
               THEN CASE q % 3 = 1 -> PushOp("a", kd, s, 0, 100 + (q \div 3))
                      [] q % 3 = 2 -> PushOp("b", kd, s, 0, 100 + (q \div 3))
                      [] OTHER -> IF Chance(s, i, 21, 60) THEN RandRead("b", kd, s, i) ELSE RandRead("a", kd, s, i)
               ELSE SameOp("a", "b", kd, FinalF(kd, q - 3 * n), s, i)
PersEnd(s) == 2 * PreLen(s) + 2 + Used(s) + Len(KD(s).feats) + 3 * PostLen(s) + FinalLen(KD(s))

(* calls of the numeric function objects                                   *)
CallNo == 16
AnyF == {"less", "less_equal", "greater", "greater_equal", "equal_to", "not_equal_to", "fdiv", "divides", "modulus", "divides_assign", "modulus_assign",
         "promote", "unary_plus", "unary_minus", "complement", "logical_not", "as_min", "as_max", "as_zero", "as_one"}
AsF == {"assign", "min_assign", "max_assign", "plus_assign", "minus_assign", "multiplies_assign", "divides_assign", "modulus_assign"}
MulF == {"multiplies", "multiplies_assign", "outer_product"}
Least2(a, b) == IF RLt(a, b) THEN a ELSE b
\* the largest magnitude an integral operand of fn may have without overflow, or inexact conversion to a floating type
Mantissa(t) == CASE t = "float" -> RPow("2", 24) [] t = "double" -> RPow("2", 53) [] OTHER -> RPow("2", 63)
TopOf(fn, lt, rt) ==
  LET c == Common(lt, rt)
      res == IF fn \in AsF THEN lt ELSE c
      own == Least2(Biggest(lt), Biggest(rt))
  IN IF ~Integral(res) THEN IF fn \in MulF \/ res = "ldb" THEN Least2(own, Mantissa("double")) ELSE Least2(own, Mantissa(res))
     ELSE IF ~Integral(lt) \/ ~Integral(rt) THEN "180"
     ELSE IF fn \in AnyF \/ fn \in {"assign", "min_assign", "max_assign"} THEN own
     ELSE IF Unsigned(res) /\ Unsigned(c) THEN own
     ELSE IF fn \in MulF THEN Least2(own, CASE res = "short" -> "181" [] res = "ll" -> "3037000499" [] OTHER -> "46340")
     ELSE Least2(own, RTrunc(RDiv(Biggest(res), "2")))
NumVal(fn, t, lt, rt, nz, s, k, j) ==
  LET e == Elem(t)
      pos == Unsigned(lt) \/ Unsigned(rt)
      top == TopOf(fn, lt, rt)
      fit(v) == RSub(v, RMul(RAdd(top, "1"), RTrunc(RDiv(v, RAdd(top, "1")))))        \* into -top..top
      small == IsCplx(t) \/ (Integral(lt) /\ ~Integral(rt))
      dice == Rnd(s, k, j, 100)
      v == IF fn = "promote_all" THEN IF dice < 20 THEN "0" ELSE "1"
           ELSE IF Integral(e)
           THEN CASE dice < 35 -> fit(R(Between(s, k, j + 1, -9, 9)))
                  [] dice < 60 -> fit(R(Between(s, k, j + 1, -180, 180)))
                  [] dice < 75 -> RMul(IF Chance(s, k, j + 2, 50) THEN "1" ELSE "-1", RSub(top, R(Between(s, k, j + 1, 0, IF RLt("3", top) THEN 3 ELSE 0))))
                  [] OTHER -> fit(RAdd(RMul(R(Between(s, k, j + 1, -1000000000, 1000000000)), RPow("2", Between(s, k, j + 2, 0, 35))), R(Between(s, k, j + 3, 0, 1000000000))))
           ELSE CASE dice < 40 -> RDiv(R(Between(s, k, j + 1, -80, 80)), "8")
                  [] dice < 75 \/ small -> RFlt(RDiv(R(Between(s, k, j + 1, -1000000, 1000000)), "99991"))
                  [] OTHER -> RMul(RFlt(RDiv(R(Between(s, k, j + 1, -1000000, 1000000)), "99991")), RPow("2", Between(s, k, j + 2, -30, 30)))
      a == IF pos THEN RAbs(v) ELSE v
  IN IF nz /\ RSgn(a) = 0 THEN "3" ELSE a
NumArg(fn, t, lt, rt, nz, n, s, k, j) ==
  IF t = "none" THEN "0" ELSE IF IsCplx(t) THEN [q \in 1..2 |-> NumVal(fn, t, lt, rt, nz, s, k, j + 10 * q)]
  ELSE IF IsVec(t) THEN [q \in 1..n |-> NumVal(fn, t, lt, rt, nz, s, k, j + 10 * q)]
  ELSE NumVal(fn, t, lt, rt, nz, s, k, j)
CallOp(s) ==
  LET q == Calls[1 + (((s - 1) * CallNo + i + Hash(Seed, 3, 3, Len(Calls))) % Len(Calls))]
      xt == IF q.fn = "promote" THEN q.rt ELSE q.lt
      cp == IsCplx(q.lt)
      L == Elem(q.lt)
      rt == IF q.rt = "none" \/ IsCplx(q.rt) THEN L ELSE Elem(q.rt)
      nz == q.fn \in {"divides", "fdiv", "modulus", "divides_assign", "modulus_assign"}
      n == IF Chance(s, i, 75, 15) THEN Between(s, i, 71, 6, 17) ELSE Between(s, i, 71, 1, 5)
      fc == IF cp THEN "plus" ELSE q.fn
      x == NumArg(fc, xt, L, rt, FALSE, n, s, i, 100)
      y0 == IF q.fn = "promote" THEN "0" ELSE NumArg(fc, q.rt, L, rt, nz, IF q.fn = "outer_product" THEN Between(s, i, 72, 1, 4) ELSE n, s, i, 300)
      y == IF q.rt = q.lt /\ Chance(s, i, 73, 15) /\ ~nz /\ q.fn # "outer_product" THEN x ELSE y0
  IN [op |-> "call", f |-> q.fn \o ":" \o q.lt \o (IF q.rt = "none" THEN "" ELSE ":" \o q.rt), fn |-> q.fn, lt |-> q.lt,
      rt |-> IF q.rt = "none" THEN q.lt ELSE q.rt, a |-> [x |-> x, y |-> y]]

NextOp == CASE Mode = "call" -> CallOp(sc) [] Mode = "stat" -> StatOp(sc) [] Mode = "purity" -> PurOp(sc) [] Mode = "copy" -> CopyOp(sc) [] Mode = "persist" -> PersOp(sc)
End == CASE Mode = "call" -> CallNo - 1 [] Mode = "stat" -> StatEnd(sc) [] Mode = "purity" -> PurEnd(sc) [] Mode = "copy" -> CopyEnd(sc) [] Mode = "persist" -> PersEnd(sc)

\* where the specification leaves a choice (rounding), generation follows one branch
ApplyOne(e) == IF e.op = "push"
               THEN Set(e.o, [objs[e.o] EXCEPT !.m = CHOOSE m2 \in StepM(objs[e.o], e) : TRUE])
               ELSE Apply(e)

GenInit == LET cat == TLCEval(KindsOf(Prop)) IN sc \in 1..NScen /\ i = 0 /\ objs = <<>> /\ kd0 = IF cat = <<>> THEN "none" ELSE KindNo(cat, sc)
GenStep(e) == /\ PrintT("@OP " \o ToJson(<<sc, i, e>>))
              /\ ApplyOne(e)
              /\ i' = i + 1
              /\ UNCHANGED <<sc, kd0>>
Next == i <= End /\ GenStep(NextOp)
=============================================================================
