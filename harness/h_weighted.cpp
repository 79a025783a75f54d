// weighted summary statistics (C02): -DTYPE, -DWTYPE, -DNAME
#include "acc.hpp"
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/min.hpp>
#include <boost/accumulators/statistics/max.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/moment.hpp>
#include <boost/accumulators/statistics/variance.hpp>
#include <boost/accumulators/statistics/skewness.hpp>
#include <boost/accumulators/statistics/kurtosis.hpp>
#include <boost/accumulators/statistics/weighted_sum.hpp>
#include <boost/accumulators/statistics/weighted_mean.hpp>
#include <boost/accumulators/statistics/weighted_moment.hpp>
#include <boost/accumulators/statistics/weighted_variance.hpp>
#include <boost/accumulators/statistics/weighted_skewness.hpp>
#include <boost/accumulators/statistics/weighted_kurtosis.hpp>
typedef TYPE T;
typedef WTYPE W;

template<class A> static std::shared_ptr<Kind<A> > mk(std::string const &n) {
    auto k = kind<A>(n);
    k->make = [](Args const &) { return new A; };
    k->push = [](A &a, Args const &e) { a(arg<T>(e, "x"), weight = arg<W>(e, "w")); };
    PERSISTABLE(k, A);
    RD(k, "count", acc::count(a));
    RD(k, "sum_of_weights", acc::sum_of_weights(a));
    return k;
}

static void reg() {
    std::string t = NAME;
    {
        // unweighted names in a set with a weight type
        typedef accumulator_set<T, stats<tag::count, tag::sum, tag::min, tag::max, NP(tag::mean), tag::moment<1>,
            tag::moment<2>, tag::moment<3>, tag::moment<4>, tag::moment<5>, NP(tag::variance(lazy)), NP(tag::skewness),
            NP(tag::kurtosis), tag::mean_of_weights>, W> A;
        auto k = mk<A>("wlazy_" + t);
        RD(k, "sum", acc::sum(a));
        RD(k, "min", (acc::min)(a));
        RD(k, "max", (acc::max)(a));
        RD(k, "moment1", acc::weighted_moment<1>(a));
        RD(k, "moment2", acc::moment<2>(a));
        RD(k, "moment3", acc::weighted_moment<3>(a));
        RD(k, "moment4", acc::moment<4>(a));
        RD(k, "moment5", acc::weighted_moment<5>(a));
        IFNP(RD(k, "mean", acc::mean(a)); RD(k, "variance", acc::variance(a));)
        RD(k, "mean_of_weights", acc::mean_of_weights(a));
        IFNP(RD(k, "skewness", acc::skewness(a)); RD(k, "kurtosis", acc::kurtosis(a));)
    }
    {
        typedef accumulator_set<T, features<tag::mean(immediate), tag::variance, NP(tag::skewness), NP(tag::kurtosis),
            tag::mean_of_weights(immediate)>, W> A;
        auto k = mk<A>("wimm_" + t);
        RD(k, "mean", acc::mean(a));
        RD(k, "variance", acc::variance(a));
        RD(k, "mean_of_weights", acc::mean_of_weights(a));
        IFNP(RD(k, "skewness", acc::skewness(a)); RD(k, "kurtosis", acc::kurtosis(a));)
    }
    {
        // the weighted names
        typedef accumulator_set<T, features<tag::weighted_sum, NP(tag::weighted_mean), tag::weighted_moment<2>,
            tag::weighted_moment<3>, tag::weighted_moment<4>, NP(tag::weighted_variance(lazy)), NP(tag::weighted_skewness),
            NP(tag::weighted_kurtosis)>, W> A;
        auto k = mk<A>("wexp_" + t);
        RD(k, "sum", acc::weighted_sum(a));
        RD(k, "moment2", acc::weighted_moment<2>(a));
        RD(k, "moment3", acc::weighted_moment<3>(a));
        RD(k, "moment4", acc::weighted_moment<4>(a));
        IFNP(RD(k, "mean", acc::weighted_mean(a)); RD(k, "variance", acc::lazy_weighted_variance(a));)
        IFNP(RD(k, "skewness", acc::weighted_skewness(a)); RD(k, "kurtosis", acc::weighted_kurtosis(a));)
    }
    {
        typedef accumulator_set<T, features<tag::weighted_mean(immediate), tag::weighted_variance>, W> A;
        auto k = mk<A>("wexpi_" + t);
        RD(k, "mean", acc::weighted_mean(a));
        RD(k, "variance", acc::weighted_variance(a));
    }
}
static Registrar r(&reg);
