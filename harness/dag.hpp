// probe accumulators for generated feature graphs: each records what reaches it
#ifndef VERIF_DAG_HPP
#define VERIF_DAG_HPP
#include "acc.hpp"
#include <boost/accumulators/framework/features.hpp>
#include <boost/mpl/always.hpp>
BOOST_PARAMETER_KEYWORD(vtag, ku)
BOOST_PARAMETER_KEYWORD(vtag, kv)
BOOST_PARAMETER_KEYWORD(vtag, k1)
BOOST_PARAMETER_KEYWORD(vtag, k2)
BOOST_PARAMETER_KEYWORD(vtag, k3)
BOOST_PARAMETER_KEYWORD(vtag, k4)
BOOST_PARAMETER_KEYWORD(vtag, k5)
BOOST_PARAMETER_KEYWORD(vtag, k6)
namespace dag {
inline std::vector<std::string> &calls() { static std::vector<std::string> v; return v; }
inline std::string show(std::vector<std::string> const &v) {
    std::string s = "[";
    for (std::size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + v[i];
    return s + "]";
}
inline std::string show(std::vector<int> const &v) {
    std::vector<std::string> s;
    for (int i : v) s.push_back(std::to_string(i));
    return show(s);
}
struct State { std::vector<int> seen, par, ctor, more, got, deps; std::string tag, feature; };
template<class Args> std::vector<int> extras(Args const &args) {
    return {args[k1 | -1], args[k2 | -1], args[k3 | -1], args[k4 | -1], args[k5 | -1], args[k6 | -1]};
}
// N::feature() is the feature provided, N::name() the tag
template<class N> struct probe : boost::accumulators::accumulator_base {
    typedef State result_type;
    static bool const odd = N::odd;
    State st;
    template<class Args> explicit probe(Args const &args) {
        st.tag = N::name(); st.feature = N::feature();
        st.ctor = {args[ku | -1], args[kv | -1], args[boost::accumulators::sample | -1]};
        st.par = {-1, -1, -1};
        st.more = extras(args);
    }
    template<class Args> void operator()(Args const &args) {
        calls().push_back(st.feature);
        st.seen.push_back(args[boost::accumulators::sample]);
        st.par = {args[ku | -1], args[kv | -1], args[boost::accumulators::weight | -1]};
        st.more = extras(args);
    }
    // the result: what was recorded, what was passed to the extractor, how much each dependency has seen
    template<class Args> result_type result(Args const &args) const {
        State r = st;
        r.got = {args[ku | -1], args[kv | -1]};
        std::vector<int> m = extras(args); r.got.insert(r.got.end(), m.begin(), m.end());
        r.deps = N::deps(args);
        return r;
    }
};
// how much the accumulator of a feature has seen: asked of the set, or of the extractor in the same call
template<class F, class Args> int seen_by(Args const &args) {
    return int(boost::accumulators::find_accumulator<F>(args[boost::accumulators::accumulator]).st.seen.size());
}
template<class F, class Args> int told_by(Args const &args) { return int(boost::accumulators::extractor<F>()(args).seen.size()); }
struct is_odd { template<class A> struct apply : boost::mpl::bool_<(A::odd)> {}; };
struct lister {
    std::vector<std::string> *v;
    template<class A> void operator()(A &a) const { v->push_back(a.st.feature); }
};
template<class S> struct Set {
    S s;
    std::vector<std::string> log;
    Set() {}
    template<class A0> explicit Set(A0 const &a0) : s(a0) {}
    template<class A0, class A1> Set(A0 const &a0, A1 const &a1) : s(a0, a1) {}
    template<class A0, class A1, class A2> Set(A0 const &a0, A1 const &a1, A2 const &a2) : s(a0, a1, a2) {}
    template<class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7> Set(A0 const &a0, A1 const &a1, A2 const &a2, A3 const &a3,
        A4 const &a4, A5 const &a5, A6 const &a6, A7 const &a7) : s(a0, a1, a2, a3, a4, a5, a6, a7) {}
};
template<class S> Set<S> *construct(Args const &e) {
    using boost::accumulators::sample;
    std::string f = e.at("form");
    int u = arg<int>(e, "u"), v = arg<int>(e, "v"), x = arg<int>(e, "s");
    if (f == "none") return new Set<S>;
    if (f == "u,v") return new Set<S>(ku = u, kv = v);
    if (f == "v,u") return new Set<S>(kv = v, ku = u);
    if (f == "s,u") return new Set<S>(sample = x, ku = u);
    if (f == "u,s,v") return new Set<S>(ku = u, sample = x, kv = v);
    if (f == "v,s,u") return new Set<S>(kv = v, sample = x, ku = u);
    if (f == "u") return new Set<S>(ku = u);
    if (f == "s") return new Set<S>(x);                   // an unnamed first argument is the sample
    if (f == "6,s,5,u,4,3,2,1") return new Set<S>(k6 = u + 6, sample = x, k5 = u + 5, ku = u, k4 = u + 4, k3 = u + 3, k2 = u + 2, k1 = u + 1);
    if (f == "s,1,2,3,4,5,6,v") return new Set<S>(x, k1 = u + 1, k2 = u + 2, k3 = u + 3, k4 = u + 4, k5 = u + 5, k6 = u + 6, kv = v);
    if (f == "s,v") return new Set<S>(x, kv = v);
    throw bad_op("ctor form " + f);
}
template<class S> void push(Set<S> &a, Args const &e) {
    using boost::accumulators::sample;
    using boost::accumulators::weight;
    std::string f = e.at("form");
    int u = arg<int>(e, "u"), v = arg<int>(e, "v"), w = arg<int>(e, "w"), x = arg<int>(e, "x");
    calls().clear();
    if (f == "x") a.s(x);
    else if (f == "n") a.s(sample = x);
    else if (f == "x,u,v") a.s(x, ku = u, kv = v);
    else if (f == "x,v,u") a.s(x, kv = v, ku = u);
    else if (f == "x,v") a.s(x, kv = v);
    else if (f == "u,n,v") a.s(ku = u, sample = x, kv = v);
    else if (f == "v,u,n") a.s(kv = v, ku = u, sample = x);
    else if (f == "x,w") a.s(x, weight = w);
    else if (f == "x,w,u") a.s(x, weight = w, ku = u);
    else if (f == "x,u,w,v") a.s(x, ku = u, weight = w, kv = v);
    else if (f == "w,v,n,u") a.s(weight = w, kv = v, sample = x, ku = u);
    else if (f == "v,u,w,n") a.s(kv = v, ku = u, weight = w, sample = x);
    else if (f == "x,1,2,3,4,5,6,u,v") a.s(x, k1 = u + 1, k2 = u + 2, k3 = u + 3, k4 = u + 4, k5 = u + 5, k6 = u + 6, ku = u, kv = v);
    else if (f == "4,u,n,5,1") a.s(k4 = u + 4, ku = u, sample = x, k5 = u + 5, k1 = u + 1);
    else if (f == "x,6,w,5,u,2,v,1") a.s(x, k6 = u + 6, weight = w, k5 = u + 5, ku = u, k2 = u + 2, kv = v, k1 = u + 1);
    else throw bad_op("push form " + f);
    a.log = calls();
}
// arguments of an extractor
template<class F, class S> std::vector<int> ask(S const &s, std::string const &f, int u, int v) {
    boost::accumulators::extractor<F> x;
    if (f == "none") return x(s).got;
    if (f == "u") return x(s, ku = u).got;
    if (f == "v") return boost::accumulators::extract_result<F>(s, kv = v).got;
    if (f == "v,u") return boost::accumulators::extract_result<F>(s, kv = v, ku = u).got;
    if (f == "3,u,1,v") return x(s, k3 = u + 3, ku = u, k1 = u + 1, kv = v).got;
    if (f == "1,2,3,4,5,6,u,v") return x(s, k1 = u + 1, k2 = u + 2, k3 = u + 3, k4 = u + 4, k5 = u + 5, k6 = u + 6, ku = u, kv = v).got;
    throw bad_op("extractor form " + f);
}
// get(set, feature): what the accumulator that provides the feature has recorded
template<class S, class Get, class Told> void make(std::string const &name, Get get, Told told, std::map<std::string, std::function<void(Set<S> &)> > dr) {
    auto k = kind<Set<S> >(name);
    k->make = [](Args const &e) { return construct<S>(e); };
    k->push = [](Set<S> &a, Args const &e) { push(a, e); };
    k->rd["log"] = [](Set<S> &a, Args const &) { return show(a.log); };
    auto ls = [](Set<S> &a, Args const &) { std::vector<std::string> v; lister l = {&v}; a.s.visit(l); return show(v); };
    k->rd["members"] = ls;
    k->rd["order"] = ls;
    k->rd["seen"] = [get](Set<S> &a, Args const &e) { return show(get(a.s, e.at("f")).seen); };
    k->rd["par"] = [get](Set<S> &a, Args const &e) { return show(get(a.s, e.at("f")).par); };
    k->rd["ctor"] = [get](Set<S> &a, Args const &e) { return show(get(a.s, e.at("f")).ctor); };
    k->rd["tag"] = [get](Set<S> &a, Args const &e) { return "[" + get(a.s, e.at("f")).tag + "]"; };
    k->rd["more"] = [get](Set<S> &a, Args const &e) { return show(get(a.s, e.at("f")).more); };
    k->rd["deps"] = [get](Set<S> &a, Args const &e) { return show(get(a.s, e.at("f")).deps); };
    k->rd["odd"] = [](Set<S> &a, Args const &) {
        std::vector<std::string> v; lister l = {&v}; a.s.template visit_if<is_odd>(l); return show(v); };
    k->rd["got"] = [told](Set<S> &a, Args const &e) { return show(told(a.s, e.at("f"), e.at("form"), arg<int>(e, "u"), arg<int>(e, "v"))); };
    k->dr = dr;
}
}
#endif
