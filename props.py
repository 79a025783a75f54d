"""What each property's check consists of."""
import dagemit

TYPES = [("double", "double"), ("int", "int"), ("float", "float"), ("longdouble", "long double"),
         ("unsigned", "unsigned"), ("short", "short"), ("longlong", "long long")]
CT = dict(TYPES)


def tu(src, **defs):
    return (src, defs)


def basic(*ts):
    return [tu("h_basic.cpp", TYPE=CT[t], NAME='"%s"' % t) for t in ts]


def weighted(*ts):
    return [tu("h_weighted.cpp", TYPE=CT[a], WTYPE=CT[b], NAME='"%s_%s"' % (a, b)) for a, b in ts]


def typed(src, *ts, **kw):
    return [tu(src, TYPE=CT[t], NAME='"%s"' % t, **kw) for t in ts]


def tail(*ts):
    return [tu("h_tail.cpp", TYPE=CT[t], SIDE=s, NAME='"%s_%s"' % (s, t)) for s in ("left", "right") for t in ts]


def psq(part, *ts):
    return typed("h_psq.cpp", *ts, PART=part)


POT = [tu("h_pot.cpp", SIDE=s, NAME='"%s"' % s) for s in ("left", "right")]
KAH = ["double", "float", "longdouble"]
VEC = [tu("h_vec.cpp", TYPE=t, NAME='"%s"' % n, **d) for n, t, d in (
    ("vecdouble", "std::vector<double>", dict(COV=1)), ("vecint", "std::vector<int>", dict(WT="int")),
    ("valdouble", "std::valarray<double>", dict(ROLL=1)), ("valint", "std::valarray<int>", dict(NOVAR=1, WT="int")),
    ("complex", "std::complex<double>", dict(CPLX=1, ROLL=1)), ("vecfloat", "std::vector<float>", dict(WT="float")),
    ("valfloat", "std::valarray<float>", dict(WT="float", ROLL=1)))]
EVERY = (basic("double", "int") + weighted(("double", "double"), ("int", "int")) + typed("h_variates.cpp", "double") +
         typed("h_rolling.cpp", "double", "int") + tail("double", "int") + POT + typed("h_density.cpp", "double") +
         psq(1, "double") + psq(2, "double") + typed("h_kahan.cpp", "double") + [VEC[0], VEC[2], VEC[4]])

PROPS = {}



def prop(id, tus, quick, thorough, mode="stat", qm=(), tm=(), **kw):
    PROPS[id] = dict(
        tus=tus,
        quick=dict(models=list(qm), gens=[("Gen:%s:%s" % (id, mode), quick)]),
        thorough=dict(models=list(qm) + list(tm), model_timeout=3000, gens=[("Gen:%s:%s" % (id, mode), thorough)], scale=2,
                      harness_timeout=1800, trace_timeout=3000), **kw)


RT = [("RatTest", "RatTest.cfg")]


def mc(*names):
    """quick and thorough configurations of the model modules"""
    return dict(qm=RT + [(n, n + ".cfg") for n in names], tm=[(n, n + "T.cfg") for n in names if n != "MCNumeric"])


prop("C01", basic(*CT), 420, 6000, **mc("MCSummary"))
prop("C02", weighted(("double", "double"), ("int", "double"), ("double", "int"), ("int", "int"), ("float", "float"),
                     ("double", "unsigned")), 480, 6000, **mc("MCSummary"))
prop("C03", typed("h_variates.cpp", "double", "float", "int") + [tu("h_variates.cpp", TYPE=a, VTYPE=b, NAME='"%s_%s"' % (a, b)) for a, b in (("int", "double"), ("double", "int"))], 450, 6000, **mc("MCSummary"))
prop("C04", typed("h_rolling.cpp", "double", "int", "unsigned", "float"), 480, 6000, **mc("MCRolling"))
prop("C05", tail("double", "int", "float", "unsigned"), 480, 6000, **mc("MCTail"))
prop("C06", tail("double", "int", "float", "unsigned"), 560, 6000, **mc("MCTail"))
prop("C07", tail("double", "int", "float"), 560, 6000, **mc("MCTail"))
prop("C13", typed("h_density.cpp", "double", "int", "float"), 480, 6000, **mc("MCDensity"))
prop("C14", psq(1, "double", "float", "int"), 400, 4000, **mc("MCPSquare"))
prop("C15", psq(1, "double", "float", "int") + psq(2, "double", "float", "int"), 400, 4000, **mc("MCPSquare"))
prop("C16", POT + [tu("h_pot.cpp", SIDE=s, TYPE=t, NAME='"%s_%s"' % (s, t)) for s in ("left", "right") for t in ("int", "float")], 480, 4000, **mc("MCPot"))
prop("C21", typed("h_density.cpp", "double", "int", "float") + psq(1, "double", "float", "int"), 480, 6000, **mc("MCDensity", "MCPSquare"))
prop("C17", typed("h_external.cpp", "double", "int"), 800, 6000, **mc("MCExternal"))
prop("C18", VEC, 480, 6000, **mc("MCSummary"))
prop("C19", typed("h_kahan.cpp", *KAH), 240, 3000, **mc("MCKahan"))
prop("C20", [tu("h_numeric.cpp", PART=p) for p in (1, 2, 3, 4, 5)], 1700, 12000, mode="call", **mc("MCNumeric"))
DROP = typed("h_drop.cpp", "double", "int")
PROPS["C09"] = dict(tus=[], emit=dagemit.emit,
                    quick=dict(models=mc("MCDag")["qm"], gens=[("GenDag:C09:dag", 240)]),
                    thorough=dict(models=mc("MCDag")["qm"] + mc("MCDag")["tm"], model_timeout=3000, gens=[("GenDag:C09:dag", 1200)], harness_timeout=1800, trace_timeout=3000))
PROPS["C08"] = dict(tus=DROP, emit=dagemit.emit,
                    quick=dict(models=mc("MCDag")["qm"], gens=[("GenDag:C08:dag", 160), ("Gen:C08:copy", 208)]),
                    thorough=dict(models=mc("MCDag")["qm"] + mc("MCDag")["tm"], model_timeout=3000, gens=[("GenDag:C08:dag", 800), ("Gen:C08:copy", 4000)], harness_timeout=1800,
                                  trace_timeout=3000))
SAVE = [(s, dict(d, PERSIST="1")) for s, d in EVERY + DROP]
prop("C10", SAVE, 1248, 6000, mode="persist", libs=["-lboost_serialization"], **mc("MCAccSet"))
prop("C11", EVERY + DROP, 1248, 6000, mode="copy", **mc("MCAccSet"))
prop("C12", EVERY, 1248, 6000, mode="purity", **mc("MCAccSet"))
