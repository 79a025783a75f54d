// tails and what is computed from them (C05, C06, C07): -DTYPE, -DSIDE, -DNAME
#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#include "acc.hpp"
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/tail.hpp>
#include <boost/accumulators/statistics/tail_variate.hpp>
#include <boost/accumulators/statistics/tail_variate_means.hpp>
#include <boost/accumulators/statistics/tail_quantile.hpp>
#include <boost/accumulators/statistics/tail_mean.hpp>
#include <boost/accumulators/statistics/weighted_tail_quantile.hpp>
#include <boost/accumulators/statistics/weighted_tail_mean.hpp>
#include <boost/accumulators/statistics/weighted_tail_variate_means.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
typedef TYPE T;
typedef SIDE S;
typedef std::conditional<std::is_same<T, float>::value, float, double>::type VE;
typedef std::vector<VE> V;          // the tail variate means hold the averages of the variates in the floating type of the sample
typedef tag::covariate1 C1;

template<class A> static std::shared_ptr<Kind<A> > mk(std::string const &n) {
    auto k = kind<A>(n);
    k->make = [](Args const &p) { return new A(tag::tail<S>::cache_size = arg<std::size_t>(p, "N")); };
    PERSISTABLE(k, A);
    RD(k, "count", acc::count(a));
    RDS(k, "tail", auto r = acc::tail(a); return fmt(std::vector<T>(r.begin(), r.end())););
    return k;
}
template<class X> static std::vector<std::string> strs(X const &r) {
    std::vector<std::string> o; for (auto i = r.begin(); i != r.end(); ++i) o.push_back(fmt(*i)); return o;
}
template<class X> static std::vector<std::string> vstrs(X const &r) {
    std::vector<std::string> o;
    for (auto i = r.begin(); i != r.end(); ++i) { std::string s = fmt(*i); o.push_back(s.substr(1, s.size() - 2)); }
    return o;
}
static std::string zip(std::vector<std::vector<std::string> > const &cols) {
    std::string s = "[";
    for (std::size_t i = 0; i < cols[0].size(); ++i)
        for (auto &c : cols) { if (s.size() > 1) s += ","; s += i < c.size() ? c[i] : std::string("missing"); }
    for (auto &c : cols) if (c.size() != cols[0].size()) s += ",length";
    return s + "]";
}
static void reg() {
    std::string t = NAME;
    {
        typedef accumulator_set<T, stats<tag::count, tag::tail<S>, tag::tail_quantile<S>, tag::coherent_tail_mean<S>,
            tag::non_coherent_tail_mean<S> > > A;
        auto k = mk<A>("tail_" + t);
        k->push = [](A &a, Args const &e) { a(arg<T>(e, "x")); };
        RD(k, "quantile", acc::quantile(a, quantile_probability = P(e)));
        RD(k, "nctm", acc::non_coherent_tail_mean(a, quantile_probability = P(e)));
        RD(k, "ctm", acc::tail_mean(a, quantile_probability = P(e)));
    }
    {
        typedef accumulator_set<T, stats<tag::count, tag::tail_variate<V, C1, S>, tag::tail_variate_means<S, V, C1>(absolute),
            tag::tail_variate_means<S, V, C1>(relative), tag::tail_quantile<S> > > A;
        auto k = mk<A>("tailv_" + t);
        k->push = [](A &a, Args const &e) { a(arg<T>(e, "x"), covariate1 = arg<V>(e, "c")); };
        RDS(k, "tail_xc", return zip({strs(acc::tail(a)), vstrs(acc::tail_variate(a))}););
        RD(k, "quantile", acc::quantile(a, quantile_probability = P(e)));
        RDS(k, "tvm", auto r = acc::tail_variate_means(a, quantile_probability = P(e)); return fmt(std::vector<VE>(r.begin(), r.end())););
        RDS(k, "rtvm", auto r = acc::relative_tail_variate_means(a, quantile_probability = P(e)); return fmt(std::vector<VE>(r.begin(), r.end())););
    }
    {
        typedef accumulator_set<T, stats<tag::count, tag::tail_weights<S>, tag::tail_variate<double, C1, S>, NP(tag::tail_quantile<S>),
            NP(tag::non_coherent_tail_mean<S>)>, double> A;
        auto k = mk<A>("tailw_" + t);
        k->push = [](A &a, Args const &e) { a(arg<T>(e, "x"), weight = arg<double>(e, "w"), covariate1 = at<double>(e, "c", 0)); };
        RDS(k, "tail_xw", return zip({strs(acc::tail(a)), strs(acc::tail_weights(a))}););
        RDS(k, "tail_xwc", auto c = strs(acc::tail_variate(a)); return zip({strs(acc::tail(a)), strs(acc::tail_weights(a)), c}););
        IFNP(RD(k, "wquantile", acc::quantile(a, quantile_probability = P(e)));
             RD(k, "wnctm", acc::non_coherent_tail_mean(a, quantile_probability = P(e)));)
    }
    {
        typedef accumulator_set<T, stats<tag::count, tag::tail_weights<S>, tag::tail_variate<V, C1, S>, NP(tag::weighted_tail_quantile<S>),
            NP(tag::weighted_tail_variate_means<S, V, C1>(absolute)), NP(tag::weighted_tail_variate_means<S, V, C1>(relative))>, double> A;
        auto k = mk<A>("tailwv_" + t);
        k->push = [](A &a, Args const &e) { a(arg<T>(e, "x"), covariate1 = arg<V>(e, "c"), weight = arg<double>(e, "w")); };
        RDS(k, "tail_xwc", return zip({strs(acc::tail(a)), strs(acc::tail_weights(a)), vstrs(acc::tail_variate(a))}););
        IFNP(RDS(k, "wtvm", auto r = acc::weighted_tail_variate_means(a, quantile_probability = P(e)); return fmt(std::vector<VE>(r.begin(), r.end())););
        RD(k, "wquantile", acc::weighted_tail_quantile(a, quantile_probability = P(e)));
        RDS(k, "wrtvm", auto r = acc::relative_weighted_tail_variate_means(a, quantile_probability = P(e)); return fmt(std::vector<VE>(r.begin(), r.end())););)
    }
}
static Registrar r(&reg);
