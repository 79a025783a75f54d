// unweighted summary statistics (property C01).  One translation unit per sample type: -DTYPE=...
#include "acc.hpp"
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/min.hpp>
#include <boost/accumulators/statistics/max.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/moment.hpp>
#include <boost/accumulators/statistics/variance.hpp>
#include <boost/accumulators/statistics/skewness.hpp>
#include <boost/accumulators/statistics/kurtosis.hpp>
#include <boost/accumulators/statistics/error_of_mean.hpp>
#include <boost/accumulators/statistics/with_error.hpp>
typedef TYPE T;

static void reg() {
    std::string t = NAME;
    {
        typedef accumulator_set<T, stats<tag::count, tag::sum, tag::min, tag::max, tag::mean, tag::moment<1>,
            tag::moment<2>, tag::moment<3>, tag::moment<4>, tag::moment<5>, tag::variance(lazy), tag::skewness,
            tag::kurtosis, NP(tag::error_of<tag::mean>) > > A;
        auto k = kind<A>("lazy_" + t);
        k->make = [](Args const &) { return new A; };
        k->push = [](A &a, Args const &e) { a(arg<T>(e, "x")); };
        RD(k, "count", acc::count(a));
        RD(k, "sum", acc::sum(a));
        RD(k, "min", (acc::min)(a));
        RD(k, "max", (acc::max)(a));
        RD(k, "mean", acc::mean(a));
        RD(k, "moment1", acc::moment<1>(a));
        RD(k, "moment2", acc::moment<2>(a));
        RD(k, "moment3", acc::moment<3>(a));
        RD(k, "moment4", acc::moment<4>(a));
        RD(k, "moment5", acc::moment<5>(a));
        RD(k, "variance", acc::variance(a));
        RD(k, "skewness", acc::skewness(a));
        RD(k, "kurtosis", acc::kurtosis(a));
        IFNP(RD(k, "error_of_mean", acc::error_of<tag::mean>(a));)
        PERSISTABLE(k, A);
    }
    {
        typedef accumulator_set<T, features<tag::mean(immediate), tag::variance, NP(with_error<tag::mean(immediate)>),
            tag::skewness, tag::kurtosis> > A;
        auto k = kind<A>("imm_" + t);
        k->make = [](Args const &) { return new A; };
        k->push = [](A &a, Args const &e) { a(arg<T>(e, "x")); };
        RD(k, "count", acc::count(a));
        RD(k, "mean", acc::mean(a));
        RD(k, "moment2", acc::moment<2>(a));
        RD(k, "moment3", acc::moment<3>(a));
        RD(k, "moment4", acc::moment<4>(a));
        RD(k, "variance", acc::variance(a));
        RD(k, "skewness", acc::skewness(a));
        RD(k, "kurtosis", acc::kurtosis(a));
        IFNP(RD(k, "error_of_mean", acc::error_of<tag::immediate_mean>(a));)
        PERSISTABLE(k, A);
    }
}
static Registrar r(&reg);
