// peaks over threshold (C16): -DSIDE, -DNAME, -DTYPE
#include "acc.hpp"
#include <boost/accumulators/statistics/peaks_over_threshold.hpp>
#include <boost/accumulators/statistics/weighted_peaks_over_threshold.hpp>
#include <boost/accumulators/statistics/pot_quantile.hpp>
#include <boost/accumulators/statistics/pot_tail_mean.hpp>
#ifndef TYPE
#define TYPE double
#endif
typedef SIDE S;
typedef TYPE T;

template<class A> static std::shared_ptr<Kind<A> > mk(std::string const &n) {
    auto k = kind<A>(n);
    PERSISTABLE(k, A);
    RD(k, "count", acc::count(a));
    RDS(k, "pot_fit", auto f = acc::peaks_over_threshold(a);
        return "[" + fmt(f.template get<0>()) + "," + fmt(f.template get<1>()) + "," + fmt(f.template get<2>()) + "]";);
    RD(k, "pot_quantile", acc::quantile(a, quantile_probability = P(e)));
    RD(k, "pot_tail_mean", acc::tail_mean(a, quantile_probability = P(e)));
    return k;
}
#define MKV k->make = [](Args const &p) { return new A(tag::peaks_over_threshold<S>::threshold_value = arg<T>(p, "thr")); }
#define MKP k->make = [](Args const &p) { return new A(tag::tail<S>::cache_size = arg<std::size_t>(p, "N"), \
    tag::peaks_over_threshold_prob<S>::threshold_probability = arg<double>(p, "tp")); }
#define PU k->push = [](A &a, Args const &e) { a(arg<T>(e, "x")); }
#define PW k->push = [](A &a, Args const &e) { a(arg<T>(e, "x"), weight = arg<double>(e, "w")); }
static void reg() {
    std::string t = NAME;
    {
        typedef accumulator_set<T, stats<tag::count, tag::peaks_over_threshold<S>(with_threshold_value),
            tag::pot_quantile<S>(with_threshold_value), tag::pot_tail_mean<S>(with_threshold_value)> > A;
        auto k = mk<A>("potv_" + t); MKV; PU;
    }
    {
        typedef accumulator_set<T, stats<tag::count, tag::peaks_over_threshold<S>(with_threshold_probability),
            tag::pot_quantile<S>(with_threshold_probability), tag::pot_tail_mean<S>(with_threshold_probability)> > A;
        auto k = mk<A>("potp_" + t); MKP; PU;
    }
    {
        typedef accumulator_set<T, stats<tag::count, tag::weighted_peaks_over_threshold<S>(with_threshold_value),
            tag::weighted_pot_quantile<S>(with_threshold_value), tag::weighted_pot_tail_mean<S>(with_threshold_value)>, double> A;
        auto k = mk<A>("wpotv_" + t); MKV; PW;
    }
    {
        // the unweighted names in a set with a weight type
        typedef accumulator_set<T, stats<tag::count, tag::peaks_over_threshold<S>(with_threshold_probability),
            tag::pot_quantile<S>(with_threshold_probability), tag::pot_tail_mean<S>(with_threshold_probability)>, double> A;
        auto k = mk<A>("wpotp_" + t); MKP; PW;
    }
}
static Registrar r(&reg);
