------------------------------- MODULE Catalog -------------------------------
(* Which accumulator sets exist in the harness, and which of them the      *)
(* check of each property uses.                                            *)
EXTENDS Integers, Sequences, SequencesExt

K(k, fam, t, w, cd, feats) == [k |-> k, fam |-> fam, t |-> t, w |-> w, cd |-> cd, side |-> "none", feats |-> feats]
KS(k, fam, t, w, cd, side, feats) == [k |-> k, fam |-> fam, t |-> t, w |-> w, cd |-> cd, side |-> side, feats |-> feats]

SumTypes == <<"double", "int", "float", "longdouble", "unsigned", "short", "longlong">>
LazyF == <<"count", "sum", "min", "max", "mean", "moment1", "moment2", "moment3", "moment4", "moment5",
           "variance", "skewness", "kurtosis", "error_of_mean">>
ImmF  == <<"count", "mean", "moment2", "moment3", "moment4", "variance", "skewness", "kurtosis", "error_of_mean">>

Each(T, F(_)) == FlattenSeq([j \in 1..Len(T) |-> F(T[j])])

SumKinds(T) == Each(T, LAMBDA t : <<K("lazy_" \o t, "sum", t, FALSE, 0, LazyF), K("imm_" \o t, "sum", t, FALSE, 0, ImmF)>>)

WSumTypes == <<"double_double", "int_double", "double_int", "int_int", "float_float", "double_unsigned">>
WT(t) == CASE t = "int_double" -> "int" [] t = "int_int" -> "int" [] t = "float_float" -> "float" [] OTHER -> "double"
WLazyF == <<"count", "sum_of_weights", "sum", "min", "max", "mean", "moment1", "moment2", "moment3", "moment4", "moment5",
            "variance", "skewness", "kurtosis", "mean_of_weights">>
WImmF == <<"count", "sum_of_weights", "mean", "variance", "skewness", "kurtosis", "mean_of_weights">>
WExpF == <<"count", "sum_of_weights", "sum", "mean", "moment2", "moment3", "moment4", "variance", "skewness", "kurtosis">>
WExpiF == <<"count", "sum_of_weights", "mean", "variance">>
WSumKinds(T) == Each(T, LAMBDA t : <<K("wlazy_" \o t, "sum", WT(t), TRUE, 0, WLazyF), K("wimm_" \o t, "sum", WT(t), TRUE, 0, WImmF),
                                     K("wexp_" \o t, "sum", WT(t), TRUE, 0, WExpF), K("wexpi_" \o t, "sum", WT(t), TRUE, 0, WExpiF)>>)

VarTypes == <<"double", "float", "int">>
CovF == <<"count", "mean", "sum", "variance", "sum_of_variates", "mean_of_variates", "covariance">>
WCovF == <<"count", "mean", "sum", "variance", "sum_of_weights", "weighted_sum_of_variates", "weighted_mean_of_variates", "covariance">>
CovIF == <<"count", "mean", "mean_of_variates">>
WCovIF == <<"count", "mean", "sum_of_weights", "weighted_mean_of_variates">>
\* side carries the variate the kind is about: "1", "2", or "none" for both
VarKind(n, t) ==
   <<KS("cov1_" \o n, "var", t, FALSE, 2, "1", CovF), KS("cov2_" \o n, "var", t, FALSE, 2, "2", CovF),
     KS("wcov1_" \o n, "var", t, TRUE, 2, "1", WCovF), KS("wcov2_" \o n, "var", t, TRUE, 2, "2", WCovF),
     K("covi_" \o n, "var", t, FALSE, 2, CovIF), K("wcovi_" \o n, "var", t, TRUE, 2, WCovIF)>>
VarKinds(T) == Each(T, LAMBDA t : VarKind(t, t))
\* sample and variate of different types
MixVarKinds == VarKind("int_double", "int") \o VarKind("double_int", "double")
VariateT(kd) == IF \E j \in 1..6 : kd.k = VarKind("int_double", "int")[j].k THEN "double"
                ELSE IF \E j \in 1..6 : kd.k = VarKind("double_int", "double")[j].k THEN "int" ELSE kd.t

RollTypes == <<"double", "int", "unsigned", "float">>
RollLazyF == <<"count", "rolling_window", "rolling_count", "rolling_sum", "rolling_mean", "rolling_moment2", "rolling_moment3",
               "rolling_moment4", "rolling_variance">>
RollImmF == <<"count", "rolling_count", "rolling_mean", "rolling_variance">>
RollDefF == <<"count", "rolling_window", "rolling_count", "rolling_sum", "rolling_mean", "rolling_variance">>
RollKinds(T) == Each(T, LAMBDA t : <<K("roll_lazy_" \o t, "roll", t, FALSE, 0, RollLazyF), K("roll_imm_" \o t, "roll", t, FALSE, 0, RollImmF),
                                     K("roll_def_" \o t, "roll", t, FALSE, 0, RollDefF), K("roll_lv_" \o t, "roll", t, FALSE, 0, RollImmF),
                                     K("roll_mix_" \o t, "roll", t, FALSE, 0, <<"count", "rolling_count", "rolling_sum", "rolling_mean", "rolling_moment2", "rolling_variance">>)>>)

Sides == <<"left", "right">>
TailKinds(T, F(_, _)) == Each(Sides, LAMBDA s : Each(T, LAMBDA t : F(s, t)))
TailU(s, t) == <<KS("tail_" \o s \o "_" \o t, "tail", t, FALSE, 0, s, <<"count", "tail", "quantile", "nctm", "ctm">>),
                 KS("tailv_" \o s \o "_" \o t, "tail", t, FALSE, 2, s, <<"count", "tail", "tail_xc", "quantile", "tvm", "rtvm">>)>>
TailW(s, t) == <<KS("tailw_" \o s \o "_" \o t, "tail", t, TRUE, 1, s, <<"count", "tail", "tail_xw", "tail_xwc", "wquantile", "wnctm">>),
                 KS("tailwv_" \o s \o "_" \o t, "tail", t, TRUE, 2, s, <<"count", "tail", "tail_xwc", "wquantile", "wtvm", "wrtvm">>)>>
TailL(s, t) == <<KS("tail_" \o s \o "_" \o t, "tail", t, FALSE, 0, s, <<"count", "tail">>),
                 KS("tailv_" \o s \o "_" \o t, "tail", t, FALSE, 2, s, <<"count", "tail", "tail_xc">>),
                 KS("tailw_" \o s \o "_" \o t, "tail", t, TRUE, 1, s, <<"count", "tail", "tail_xw", "tail_xwc">>),
                 KS("tailwv_" \o s \o "_" \o t, "tail", t, TRUE, 2, s, <<"count", "tail", "tail_xwc">>)>>
TailTypes == <<"double", "int", "float">>

PotF == <<"count", "pot_fit", "pot_quantile", "pot_tail_mean">>
PotKindsOf(sf, t) == Each(Sides, LAMBDA s : <<KS("potv_" \o s \o sf, "potv", t, FALSE, 0, s, PotF), KS("potp_" \o s \o sf, "potp", t, FALSE, 0, s, PotF),
                                     KS("wpotv_" \o s \o sf, "potv", t, TRUE, 0, s, PotF), KS("wpotp_" \o s \o sf, "wpotp", t, TRUE, 0, s, PotF)>>)
PotKinds == PotKindsOf("", "double")

DensTypes == <<"double", "int", "float">>
DensF == <<"count", "density">>
DensMF == <<"count", "density", "density_median">>
DensKinds(T) == Each(T, LAMBDA t : <<K("dens_" \o t, "dens", t, FALSE, 0, DensF), K("wdens_" \o t, "dens", t, TRUE, 0, DensF)>>)
DensMKinds(T) == Each(T, LAMBDA t : <<K("densmed_" \o t, "dens", t, FALSE, 0, DensMF), K("wdensmed_" \o t, "dens", t, TRUE, 0, DensMF)>>)

PsqTypes == <<"double", "float", "int">>
PQ == <<"count", "p_square_quantile">>
PsqKinds(T) == Each(T, LAMBDA t :
   <<K("psq_" \o t, "psq", t, FALSE, 0, PQ), K("wpsq_" \o t, "wpsq", t, TRUE, 0, PQ), K("wpsqn_" \o t, "wpsq", t, TRUE, 0, PQ),
     K("psqmed_" \o t, "psqmed", t, FALSE, 0, <<"count", "p_square_median">>),
     K("wpsqmed_" \o t, "wpsqmed", t, TRUE, 0, <<"count", "p_square_median">>)>>)
CdfKinds(T) == Each(T, LAMBDA t : <<K("cdf_" \o t, "cdf", t, FALSE, 0, <<"count", "cdf">>), K("wcdf_" \o t, "wcdf", t, TRUE, 0, <<"count", "cdf">>)>>)
CdfMKinds(T) == Each(T, LAMBDA t : <<K("cdfmed_" \o t, "cdf", t, FALSE, 0, <<"count", "cdf", "cdf_median">>),
                                     K("wcdfmed_" \o t, "wcdf", t, TRUE, 0, <<"count", "cdf", "cdf_median">>)>>)
EQ == <<"count", "ext", "ext_quantile">>
ExtKinds(T) == Each(T, LAMBDA t :
   <<K("ext_" \o t, "ext", t, FALSE, 0, <<"count", "ext">>), K("wext_" \o t, "wext", t, TRUE, 0, <<"count", "ext">>),
     K("extl_" \o t, "extl", t, FALSE, 0, EQ), K("extq_" \o t, "extq", t, FALSE, 0, EQ),
     K("wextl_" \o t, "wextl", t, TRUE, 0, EQ), K("wextq_" \o t, "wextq", t, TRUE, 0, EQ)>>)

(* droppable library features: requests and features to read              *)
PL(t) == [t |-> t, d |-> "n"]
DR(t) == [t |-> t, d |-> "y"]
LibReq(k) ==
  CASE k \in {"dl1_double", "dl1_int"} -> [wt |-> "n", req |-> <<PL("count"), DR("sum")>>]
    [] k \in {"dl2_double", "dl2_int"} -> [wt |-> "n", req |-> <<DR("mean")>>]
    [] k \in {"dl3_double", "dl3_int"} -> [wt |-> "n", req |-> <<PL("sum"), DR("mean")>>]
    [] k \in {"dl4_double", "dl4_int"} -> [wt |-> "n", req |-> <<DR("imean"), DR("sum")>>]
    [] k \in {"dl5_double", "dl5_int"} -> [wt |-> "n", req |-> <<DR("sum"), DR("count"), DR("mean")>>]
    [] k \in {"dl6_double", "dl6_int"} -> [wt |-> "n", req |-> <<DR("lvar"), DR("mean"), PL("max")>>]
    [] k \in {"dl7_double", "dl7_int"} -> [wt |-> "n", req |-> <<DR("ivar"), DR("imean"), DR("min")>>]
    [] k \in {"dl8_double", "dl8_int"} -> [wt |-> "n", req |-> <<DR("skew"), DR("lvar"), PL("sum")>>]
    [] k \in {"dl9_double", "dl9_int"} -> [wt |-> "n", req |-> <<PL("count"), DR("mean"), DR("max")>>]
    [] k \in {"dl10_double", "dl10_int"} -> [wt |-> "n", req |-> <<DR("cmean"), PL("count")>>]
    [] k \in {"dl11_double", "dl11_int"} -> [wt |-> "n", req |-> <<DR("lvar"), DR("cmean"), DR("sum")>>]
    [] k \in {"wdl1_double", "wdl1_int"} -> [wt |-> "y", req |-> <<DR("mean"), DR("sum")>>]
    [] k \in {"wdl2_double", "wdl2_int"} -> [wt |-> "y", req |-> <<DR("imean"), DR("count")>>]
    [] k \in {"wdl3_double", "wdl3_int"} -> [wt |-> "y", req |-> <<DR("lvar"), PL("sum_of_weights")>>]
    [] k \in {"wdl4_double", "wdl4_int"} -> [wt |-> "y", req |-> <<DR("ivar"), DR("sum"), PL("max")>>]
DropKinds(T) == Each(T, LAMBDA t :
   <<K("dl1_" \o t, "dlib", t, FALSE, 0, <<"count", "sum">>), K("dl2_" \o t, "dlib", t, FALSE, 0, <<"count", "sum", "mean">>),
     K("dl3_" \o t, "dlib", t, FALSE, 0, <<"count", "sum", "mean">>), K("dl4_" \o t, "dlib", t, FALSE, 0, <<"count", "sum", "mean">>),
     K("dl5_" \o t, "dlib", t, FALSE, 0, <<"count", "sum", "mean">>),
     K("dl6_" \o t, "dlib", t, FALSE, 0, <<"count", "sum", "mean", "moment2", "variance", "max">>),
     K("dl7_" \o t, "dlib", t, FALSE, 0, <<"count", "mean", "variance", "min">>),
     K("dl8_" \o t, "dlib", t, FALSE, 0, <<"count", "sum", "mean", "moment2", "moment3", "variance", "skewness">>),
     K("dl9_" \o t, "dlib", t, FALSE, 0, <<"count", "sum", "mean", "max">>),
     K("dl10_" \o t, "dlib", t, FALSE, 0, <<"count", "sum", "mean">>),
     K("dl11_" \o t, "dlib", t, FALSE, 0, <<"count", "sum", "mean", "moment2", "variance">>),
     K("wdl1_" \o t, "dlib", t, TRUE, 0, <<"sum_of_weights", "sum", "mean">>),
     K("wdl2_" \o t, "dlib", t, TRUE, 0, <<"sum_of_weights", "count", "mean">>),
     K("wdl3_" \o t, "dlib", t, TRUE, 0, <<"sum_of_weights", "count", "sum", "mean", "moment2", "variance">>),
     K("wdl4_" \o t, "dlib", t, TRUE, 0, <<"sum_of_weights", "count", "sum", "mean", "variance", "max">>)>>)

\* sets that cannot be assigned to (a cached result has no assignment)
NoAssignKind == {"dl10_double", "dl10_int", "dl11_double", "dl11_int"}

KahTypes == <<"double", "float", "longdouble">>
KahKinds(T) == Each(T, LAMBDA t : <<K("kah_" \o t, "kah", t, FALSE, 1, <<"count", "sum", "mean", "sum_of_variates">>),
                                    K("wkah_" \o t, "kah", t, TRUE, 1, <<"count", "sum", "sum_of_weights", "mean", "weighted_sum_of_variates">>)>>)

(* sets that depend on others *)
XsF == <<"count", "mean", "sum", "osum">>
XKinds(T) == Each(T, LAMBDA t :
   <<K("xsum_" \o t, "xs", t, FALSE, 0, XsF), K("xref_" \o t, "xs", t, FALSE, 0, XsF), K("xref2_" \o t, "xs", t, FALSE, 0, XsF),
     K("xvar_" \o t, "xs", t, FALSE, 0, <<"count", "mean", "variance", "skewness", "moment2", "osum">>),
     K("xwt_" \o t, "xw", t, TRUE, 0, <<"count", "sum", "mean", "variance", "moment3", "sum_of_weights", "osum_of_weights">>),
     K("xwt2_" \o t, "xw", t, TRUE, 0, <<"count", "sum", "mean", "moment2", "osum_of_weights">>),
     K("xwti_" \o t, "xw", t, TRUE, 0, <<"max", "mean", "osum_of_weights">>),
     K("xmow_" \o t, "xw", t, TRUE, 0, <<"count", "sum", "mean", "skewness", "mean_of_weights", "omean_of_weights">>),
     K("xmowi_" \o t, "xw", t, TRUE, 0, <<"count", "mean_of_weights", "omean_of_weights">>),
     K("xwk_" \o t, "xw", t, TRUE, 0, <<"count", "sum", "sum_of_weights", "osum_of_weights">>),
     K("xwr_" \o t, "xw", t, TRUE, 0, <<"count", "sum", "mean", "variance", "kurtosis", "sum_of_weights", "osum_of_weights">>),
     K("xwvi_" \o t, "xw", t, TRUE, 0, <<"count", "min", "mean", "variance", "osum_of_weights">>),
     K("xcnt_" \o t, "xc", t, FALSE, 0, <<"sum", "count", "mean", "moment2", "ocount">>),
     K("xmean_" \o t, "xm", t, FALSE, 0, <<"count", "moment2", "mean", "xvariance", "omean">>),
     K("xtwo_" \o t, "xs", t, FALSE, 0, <<"count", "mean", "sum", "xmax", "osum">>),
     K("rv_" \o t, "xr", t, FALSE, 0, <<"count", "mean", "ref", "ref2", "var", "val", "val2">>)>>)

(* samples with components: side names the container *)
VF(t) == IF t = "complex" THEN <<"count", "sum", "mean">> ELSE <<"count", "sum", "mean", "min", "max", "moment2", "moment3", "variance">>
ViF(t) == IF t \in {"complex", "valint"} THEN <<"count", "mean">> ELSE <<"count", "mean", "variance">>
VwF(t) == IF t \in {"complex", "valint"} THEN <<"count", "sum", "mean", "sum_of_weights">>
          ELSE <<"count", "sum", "mean", "sum_of_weights", "moment2", "variance">>
VwiF(t) == IF t \in {"complex", "valint"} THEN <<"count", "mean", "sum_of_weights">> ELSE <<"count", "mean", "sum_of_weights", "variance">>
ElemOf(t) == IF t \in {"vecint", "valint"} THEN "int" ELSE IF t \in {"vecfloat", "valfloat"} THEN "float" ELSE "double"
VecTypes == <<"vecdouble", "vecint", "valdouble", "valint", "complex", "vecfloat", "valfloat">>
VecKinds(T) == Each(T, LAMBDA t :
   <<KS("vl_" \o t, "vec", ElemOf(t), FALSE, 0, t, VF(t)), KS("vi_" \o t, "vec", ElemOf(t), FALSE, 0, t, ViF(t)),
     KS("vw_" \o t, "vec", ElemOf(t), TRUE, 0, t, VwF(t)), KS("vwi_" \o t, "vec", ElemOf(t), TRUE, 0, t, VwiF(t))>>)
VecRKinds(T) == Each(T, LAMBDA t : <<KS("vr_" \o t, "vecr", ElemOf(t), FALSE, 0, t, <<"count", "rolling_count", "rolling_sum", "rolling_mean">>)>>)
VCovKinds == <<KS("vsc_vecdouble", "vsc", "double", FALSE, 0, "vecdouble", <<"count", "mean", "mean_of_variates", "covariance">>),
               KS("wvsc_vecdouble", "vsc", "double", TRUE, 0, "vecdouble", <<"count", "mean", "weighted_mean_of_variates", "covariance">>),
               KS("vvc_vecdouble", "vvc", "double", FALSE, 0, "vecdouble", <<"count", "mean", "mean_of_variates", "covariance">>),
               KS("wvvc_vecdouble", "vvc", "double", TRUE, 0, "vecdouble", <<"count", "mean", "weighted_mean_of_variates", "covariance">>)>>

(* numeric function objects *)
ArithF == <<"plus", "minus", "multiplies", "divides">>
CmpF == <<"less", "less_equal", "greater", "greater_equal", "equal_to", "not_equal_to">>
AsgnF == <<"assign", "plus_assign", "minus_assign", "multiplies_assign", "divides_assign">>
MMF == <<"min_assign", "max_assign">>
LimF == <<"as_min", "as_max", "as_zero", "as_one">>
CallsOf(F, P) == Each(F, LAMBDA fn : [j \in 1..Len(P) |-> [fn |-> fn, lt |-> P[j][1], rt |-> P[j][2]]])
One(T) == [j \in 1..Len(T) |-> <<T[j], "none">>]
ScalarPairs == << <<"int", "int">>, <<"int", "double">>, <<"double", "int">>, <<"double", "double">>, <<"float", "float">>,
                  <<"unsigned", "unsigned">>, <<"short", "short">>, <<"ll", "ll">>, <<"int", "unsigned">>, <<"ll", "int">>,
                  <<"ldb", "ldb">>, <<"float", "double">>, <<"ldb", "int">>, <<"int", "ldb">>, <<"short", "int">>, <<"float", "int">>,
                  <<"int", "ll">>, <<"short", "ll">>, <<"unsigned", "ll">>, <<"unsigned", "int">>, <<"ull", "ull">>, <<"unsigned", "ull">>,
                  <<"ull", "int">>, <<"double", "float">>, <<"double", "ll">>, <<"double", "unsigned">>, <<"ldb", "ll">> >>
MorePairs == << <<"ll", "double">>, <<"unsigned", "double">>, <<"unsigned", "float">>, <<"int", "short">>, <<"int", "float">>, <<"ull", "double">> >>
Calls == CallsOf(ArithF \o CmpF \o AsgnF \o MMF \o <<"fdiv">>, ScalarPairs)
  \o CallsOf(ArithF \o CmpF \o <<"fdiv">>, MorePairs)
  \o CallsOf(<<"modulus">>, << <<"ll", "ll">>, <<"ull", "ull">>, <<"int", "ll">>, <<"unsigned", "ll">> >>)
  \o CallsOf(<<"modulus_assign">>, << <<"ll", "ll">>, <<"unsigned", "unsigned">> >>)
  \o CallsOf(<<"unary_plus", "complement", "logical_not">>, One(<<"ll">>)) \o CallsOf(<<"unary_minus">>, One(<<"ldb", "float">>))
  \o CallsOf(LimF, One(<<"ull">>)) \o CallsOf(<<"one", "zero", "default_">>, One(<<"ll", "unsigned", "ull", "short", "ldb">>))
  \o CallsOf(<<"promote">>, << <<"ldb", "ll">>, <<"ldb", "int">>, <<"ull", "unsigned">>, <<"ll", "unsigned">>, <<"ll", "short">>, <<"double", "short">>,
                               <<"float", "short">> >>)
  \o CallsOf(<<"modulus">>, << <<"int", "int">>, <<"unsigned", "unsigned">>, <<"ll", "int">> >>)
  \o CallsOf(<<"modulus_assign">>, << <<"int", "int">> >>)
  \o CallsOf(<<"unary_plus", "unary_minus", "logical_not">>, One(<<"int", "double">>))
  \o CallsOf(<<"complement">>, One(<<"int">>)) \o CallsOf(<<"unary_minus">>, One(<<"ll", "vd", "vi", "ad", "ai">>))
  \o CallsOf(LimF, One(<<"int", "unsigned", "short", "ll", "float", "double", "ldb", "vd", "vi", "ad", "ai">>))
  \o CallsOf(<<"as_zero", "as_one">>, One(<<"cd">>))
  \o CallsOf(<<"one", "zero", "default_">>, One(<<"int", "double", "float", "cd">>))
  \o CallsOf(<<"promote">>, << <<"double", "int">>, <<"double", "float">>, <<"ldb", "double">>, <<"ll", "int">>, <<"int", "int">>,
                               <<"double", "double">>, <<"double", "ll">>, <<"double", "unsigned">>,
                               <<"vd", "vi">>, <<"vd", "vd">>, <<"ad", "ai">>, <<"ad", "ad">> >>)
  \o CallsOf(<<"plus", "minus", "multiplies", "divides", "equal_to", "plus_assign">>, << <<"cd", "cd">> >>)
  \o CallsOf(<<"multiplies", "divides", "fdiv">>, << <<"cd", "int">>, <<"cd", "double">> >>)
  \o CallsOf(ArithF, << <<"vd", "vd">>, <<"vi", "vi">>, <<"ad", "ad">>, <<"ai", "ai">> >>)
  \o CallsOf(<<"plus", "multiplies">>, << <<"vi", "vd">> >>) \o CallsOf(<<"minus", "divides">>, << <<"vd", "vi">> >>)
  \o CallsOf(<<"plus">>, << <<"ai", "ad">>, <<"ad", "ai">> >>)
  \o CallsOf(<<"multiplies", "divides">>, << <<"vd", "double">>, <<"vi", "int">>, <<"vi", "double">>, <<"ad", "double">>, <<"ai", "int">>,
                                             <<"ai", "double">>, <<"ad", "int">> >>)
  \o CallsOf(<<"multiplies">>, << <<"double", "vd">>, <<"int", "vd">> >>)
  \o CallsOf(<<"fdiv">>, << <<"vd", "int">>, <<"vi", "int">>, <<"vi", "double">>, <<"vd", "double">>, <<"vi", "unsigned">>,
                            <<"ad", "int">>, <<"ai", "int">>, <<"ai", "double">>, <<"ad", "double">>, <<"ai", "unsigned">> >>)
  \o CallsOf(<<"plus_assign", "min_assign", "max_assign">>, << <<"vd", "vd">>, <<"vi", "vi">>, <<"ad", "ad">>, <<"ai", "ai">> >>)
  \o CallsOf(<<"minus_assign", "multiplies_assign", "divides_assign">>, << <<"ad", "ad">> >>)
  \o CallsOf(ArithF \o <<"fdiv", "plus_assign", "min_assign", "max_assign">>, << <<"ush", "ush">> >>) \o CallsOf(CmpF, << <<"ush", "ush">>, <<"ush", "int">> >>)
  \o CallsOf(ArithF \o <<"fdiv">>, << <<"ush", "int">>, <<"ll", "ush">> >>)
  \o CallsOf(LimF, One(<<"ush", "vf", "vl", "af", "al">>)) \o CallsOf(<<"one", "zero", "default_">>, One(<<"ush", "cf">>))
  \o CallsOf(<<"as_zero", "as_one">>, One(<<"cf">>))
  \o CallsOf(ArithF, << <<"vf", "vf">>, <<"vl", "vl">>, <<"af", "af">>, <<"al", "al">>, <<"vl", "vi">>, <<"vf", "vd">>, <<"ad", "double">>, <<"double", "ad">>, <<"int", "ai">> >>)
  \o CallsOf(<<"plus">>, << <<"ad", "af">>, <<"al", "ai">> >>)
  \o CallsOf(<<"modulus">>, << <<"ai", "ai">>, <<"al", "al">>, <<"ai", "int">> >>)
  \o CallsOf(<<"multiplies", "divides", "fdiv">>, << <<"vf", "float">>, <<"vf", "int">>, <<"vf", "double">>, <<"vl", "int">>, <<"vl", "ll">>, <<"vl", "double">>,
                                                     <<"af", "float">>, <<"af", "int">>, <<"af", "double">>, <<"al", "int">>, <<"al", "ll">>, <<"al", "double">> >>)
  \o CallsOf(<<"plus_assign", "min_assign", "max_assign">>, << <<"vf", "vf">>, <<"vl", "vl">>, <<"af", "af">>, <<"al", "al">> >>)
  \o CallsOf(<<"unary_minus">>, One(<<"vf", "vl", "af", "al">>))
  \o CallsOf(<<"promote">>, << <<"vd", "vf">>, <<"vd", "vl">>, <<"vl", "vi">>, <<"ad", "af">>, <<"al", "ai">> >>)
  \o CallsOf(<<"promote_all">>, One(<<"ab">>))
  \o CallsOf(<<"outer_product">>, << <<"double", "vd">>, <<"vf", "vf">>, <<"vd", "vi">>, <<"vl", "vl">> >>)
  \o CallsOf(<<"plus", "minus", "multiplies", "divides", "equal_to", "plus_assign">>, << <<"cf", "cf">> >>)
  \o CallsOf(<<"multiplies", "divides", "fdiv">>, << <<"cf", "int">>, <<"cf", "float">>, <<"cf", "double">>, <<"cd", "float">> >>)
  \o CallsOf(CmpF, << <<"ad", "ad">>, <<"ai", "ai">> >>)
  \o CallsOf(<<"outer_product">>, << <<"double", "double">>, <<"int", "double">>, <<"vd", "double">>, <<"vd", "vd">>, <<"vi", "vi">> >>)

D == <<"double">>
DI == <<"double", "int">>
VecSome == <<"vecdouble", "valdouble", "complex">>
\* every kind with state of its own, in one or two types: for copying, saving and interleaved reading
Every == SumKinds(DI) \o WSumKinds(<<"double_double", "int_int">>) \o VarKinds(D) \o RollKinds(DI)
         \o TailKinds(DI, TailU) \o TailKinds(D, TailW) \o PotKinds \o DensKinds(D) \o DensMKinds(D)
         \o PsqKinds(D) \o CdfKinds(D) \o CdfMKinds(D) \o ExtKinds(D) \o KahKinds(D)
         \o VecKinds(VecSome) \o VecRKinds(<<"valdouble">>) \o VCovKinds

(* Saving needs a serialize member, which some accumulators do not have:   *)
(* those kinds are absent, or lack the feature, in the saving harness.     *)
NoSaveKind == {"vw_vecdouble", "vw_valdouble", "vw_complex", "wvsc_vecdouble", "wvvc_vecdouble", "wcov1_double", "wcov2_double", "wpsqmed_double",
               "wdl1_double", "wdl1_int", "wdl3_double", "wdl3_int"}
NoSaveF(kd) == IF kd.fam = "sum" /\ kd.w
               THEN {"skewness", "kurtosis"} \cup (IF kd.k \in {"wlazy_double_double", "wlazy_int_int", "wexp_double_double", "wexp_int_int"}
                                                   THEN {"mean", "variance"} ELSE {})
               ELSE IF kd.k = "wkah_double" THEN {"mean"} ELSE {"error_of_mean", "wquantile", "wnctm", "wtvm", "wrtvm"}
Savable == LET q == SelectSeq(Every \o DropKinds(DI), LAMBDA kd : kd.k \notin NoSaveKind)
           IN [j \in 1..Len(q) |-> [q[j] EXCEPT !.feats = SelectSeq(@, LAMBDA f : f \notin NoSaveF(q[j]))]]

KindsOf(prop) ==
  CASE prop = "C01" -> SumKinds(SumTypes)
    [] prop = "C02" -> WSumKinds(WSumTypes)
    [] prop = "C03" -> VarKinds(VarTypes) \o MixVarKinds
    [] prop = "C04" -> RollKinds(RollTypes)
    [] prop = "C05" -> TailKinds(TailTypes \o <<"unsigned">>, TailL)
    [] prop = "C06" -> TailKinds(TailTypes \o <<"unsigned">>, TailU)
    [] prop = "C07" -> TailKinds(TailTypes, TailW)
    [] prop = "C08" -> DropKinds(DI)
    [] prop = "C10" -> Savable
    [] prop = "C11" -> Every \o DropKinds(DI)
    [] prop = "C12" -> Every
    [] prop = "C13" -> DensKinds(DensTypes)
    [] prop = "C14" -> PsqKinds(PsqTypes)
    [] prop = "C15" -> CdfKinds(PsqTypes) \o ExtKinds(PsqTypes)
    [] prop = "C16" -> PotKinds \o PotKindsOf("_int", "int") \o PotKinds \o PotKindsOf("_float", "float")
    [] prop = "C17" -> XKinds(<<"double", "int">>)
    [] prop = "C18" -> VecKinds(VecTypes) \o VecRKinds(<<"valdouble", "complex", "valfloat">>) \o VCovKinds
    [] prop = "C19" -> KahKinds(KahTypes)
    [] prop = "C20" -> <<>>
    [] prop = "C21" -> DensMKinds(DensTypes) \o CdfMKinds(PsqTypes)
=============================================================================
