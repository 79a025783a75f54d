// compensated sums
#include "acc.hpp"
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/sum_kahan.hpp>
#include <boost/accumulators/statistics/weighted_sum_kahan.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
typedef TYPE T;
static void reg() {
    std::string n = NAME;
    {
        typedef accumulator_set<T, stats<tag::sum(kahan), tag::mean, tag::sum_of_variates_kahan<T, tag::covariate1> > > A;
        auto k = kind<A>("kah_" + n);
        k->make = [](Args const &) { return new A; };
        k->push = [](A &a, Args const &e) { a(arg<T>(e, "x"), covariate1 = at<T>(e, "c", 0)); };
        PERSISTABLE(k, A);
        RD(k, "count", acc::count(a)); RD(k, "sum", acc::sum_kahan(a)); RD(k, "mean", acc::mean(a));
        RD(k, "sum_of_variates", acc::sum_of_variates_kahan(a));
    }
    {
        typedef accumulator_set<T, stats<tag::count, tag::sum_kahan, tag::sum_of_weights_kahan, NP(tag::mean),
                                         tag::weighted_sum_of_variates_kahan<T, tag::covariate1> >, T> A;
        auto k = kind<A>("wkah_" + n);
        k->make = [](Args const &) { return new A; };
        k->push = [](A &a, Args const &e) { a(arg<T>(e, "x"), weight = arg<T>(e, "w"), covariate1 = at<T>(e, "c", 0)); };
        PERSISTABLE(k, A);
        RD(k, "count", acc::count(a)); RD(k, "sum", acc::sum(a)); RD(k, "sum_of_weights", acc::sum_of_weights_kahan(a));
        IFNP(RD(k, "mean", acc::mean(a));)
        RD(k, "weighted_sum_of_variates", acc::weighted_sum_of_variates_kahan(a));
    }
}
static Registrar r(&reg);
