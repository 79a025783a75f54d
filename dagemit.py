"""C++ translation units for the feature graphs of generated scenarios: one set of probe accumulators per graph."""
import os


def emit(scens, work):
    """scens: scenarios; returns TUs for every graph that occurs in them"""
    out = {}
    for s in scens:
        for e in s:
            if e["op"] == "new" and e.get("fam") == "dag" and e["k"] not in out:
                out[e["k"]] = tu(e["k"], e["p"], work)
    return list(out.values())


def tu(k, p, work):
    ns = "g_" + k
    L = ['#include "dag.hpp"', "namespace %s {" % ns]
    tags = sorted(p["prov"], key=lambda t: (int(t[1:]), t[0]))
    L.append("namespace tag { %s }" % " ".join("struct %s;" % t for t in tags))
    for t in tags:
        deps = ", ".join("dag::%s<tag::%s>(args)" % ("told_by" if j == 0 else "seen_by", f) for j, f in enumerate(p["deps"][t]))
        L.append('struct N_%s { static bool const odd = %s; template<class Args> static std::vector<int> deps(Args const &args) { (void)args; return {%s}; }'
                 % (t, "true" if int(t[1:]) % 2 else "false", deps))
        L.append('  static char const *name() { return "%s"; } static char const *feature() { return "%s"; } };'
                 % (t, p["prov"][t]))
    L.append("struct mod {};")
    L.append("namespace tag {")
    for t in tags:
        L.append("struct %s : boost::accumulators::depends_on<%s> { typedef boost::mpl::always<dag::probe<N_%s> > impl; };"
                 % (t, ", ".join(p["deps"][t]), t))
    L.append("} }")
    L.append("namespace boost { namespace accumulators {")
    for t in tags:
        if t != p["prov"][t]:
            L.append("template<> struct feature_of<%s::tag::%s> : feature_of<%s::tag::%s> {};" % (ns, t, ns, p["prov"][t]))
    for t, w in p["wsub"].items():
        L.append("template<> struct as_weighted_feature<%s::tag::%s> { typedef %s::tag::%s type; };" % (ns, t, ns, w))
    named = sorted({r["t"] for r in p["req"] if r["m"] == "y"})
    for t in named:
        # tag::fN(mod) names the tag
        L.append("template<> struct as_feature<%s::tag::%s(%s::mod)> { typedef %s::tag::%s type; };"
                 % (ns, p["prov"][t], ns, ns, t))
    L.append("} }")
    L.append("namespace %s {" % ns)

    def spell(r):
        x = "tag::%s(mod)" % p["prov"][r["t"]] if r["m"] == "y" else "tag::" + r["t"]
        return "boost::accumulators::droppable<%s >" % x if r["d"] == "y" else x
    top, grp = [], []
    for r in p["req"]:
        (grp if r["g"] == "1" else top).append(spell(r))
    if grp:
        pos = 0 if p["req"][0]["g"] == "1" else len(top)
        top.insert(pos, "boost::accumulators::features<%s >" % ", ".join(grp))
    L.append("typedef boost::accumulators::accumulator_set<int, boost::accumulators::features<%s >%s> S;"
             % (", ".join(top), ", int" if p["wt"] == "y" else ""))
    # members: the closure of what is requested (asked of the real set, so a missing member fails to compile)
    seen, todo = set(), [p["prov"][r["t"]] for r in p["req"]]
    act = {}
    for r in p["req"]:
        act.setdefault(p["prov"][r["t"]], r["t"])
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        t = act.get(f, f)
        if p["wt"] == "y":
            t = p["wsub"].get(t, t)
        todo += p["deps"][t]
    L.append("static dag::State get(S &s, std::string const &f) {")
    for f in sorted(seen):
        L.append('  if (f == "%s") return %s;' % (f, [
            "boost::accumulators::extract_result<tag::%s>(s)", "boost::accumulators::extractor<tag::%s>()(s)",
            "boost::accumulators::find_accumulator<tag::%s>(s).result((boost::accumulators::accumulator = s))",
            "s.template extract<tag::%s>().result((boost::accumulators::accumulator = s))".replace("template ", ""),
            "boost::accumulators::extract_result<tag::%s>(const_cast<S const &>(s))"][int(f[1:]) % 5] % f))
    L.append('  throw bad_op("no feature " + f); }')
    L.append("static std::vector<int> told(S &s, std::string const &f, std::string const &form, int u, int v) {")
    for f in sorted(seen):
        L.append('  if (f == "%s") return dag::ask<tag::%s>(s, form, u, v);' % (f, f))
    L.append('  throw bad_op("no feature " + f); }')
    L.append("static void reg() { std::map<std::string, std::function<void(dag::Set<S> &)> > dr;")
    for r in p["req"]:
        if r["d"] == "y":
            L.append('  dr["%s"] = [](dag::Set<S> &a) { a.s.drop<tag::%s>(); };' % (p["prov"][r["t"]], p["prov"][r["t"]]))
    L.append('  dag::make<S>("%s", &get, &told, dr); }' % k)
    L.append("static Registrar r(&reg); }")
    path = os.path.join(work, "dag_%s.cpp" % k)
    open(path, "w").write("\n".join(L) + "\n")
    return (path, {})
