// statistics of variates and covariance (C03): -DTYPE, -DNAME
#include "acc.hpp"
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/variance.hpp>
#include <boost/accumulators/statistics/covariance.hpp>
#include <boost/accumulators/statistics/weighted_sum.hpp>
#include <boost/accumulators/statistics/weighted_mean.hpp>
#include <boost/accumulators/statistics/weighted_variance.hpp>
#include <boost/accumulators/statistics/weighted_covariance.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#ifndef VTYPE
#define VTYPE TYPE
#endif
typedef TYPE T;
typedef VTYPE VT;
typedef tag::covariate1 V1;
typedef tag::covariate2 V2;

template<class A> static std::shared_ptr<Kind<A> > mk(std::string const &n) {
    auto k = kind<A>(n);
    k->make = [](Args const &) { return new A; };
    PERSISTABLE(k, A);
    RD(k, "count", acc::count(a));
    RD(k, "mean", acc::mean(a));
    return k;
}
#define PUSHU k->push = [](A &a, Args const &e) { \
    a(arg<T>(e, "x"), covariate1 = at<VT>(e, "c", 0), covariate2 = at<VT>(e, "c", 1)); }
#define PUSHW k->push = [](A &a, Args const &e) { \
    a(arg<T>(e, "x"), weight = arg<double>(e, "w"), covariate2 = at<VT>(e, "c", 1), covariate1 = at<VT>(e, "c", 0)); }

// one variate
template<class V> static void one(std::string const &v) {
    std::string t = NAME;
    {
        typedef accumulator_set<T, stats<tag::mean, tag::variance(lazy), tag::covariance<VT, V>, tag::sum_of_variates<VT, V>,
            tag::mean_of_variates<VT, V> > > A;
        auto k = mk<A>("cov" + v + "_" + t);
        PUSHU;
        RD(k, "sum", acc::sum(a));
        RD(k, "variance", acc::variance(a));
        RD(k, "sum_of_variates", acc::sum_of_variates(a));
        RD(k, "mean_of_variates", (acc::mean_of_variates<VT, V>(a)));
        RD(k, "covariance", acc::covariance(a));
    }
#ifndef PERSIST
    {
        typedef accumulator_set<T, stats<tag::mean, tag::variance(lazy), tag::covariance<VT, V>, tag::sum_of_variates<VT, V>,
            tag::mean_of_variates<VT, V> >, double> A;
        auto k = mk<A>("wcov" + v + "_" + t);
        PUSHW;
        RD(k, "sum", acc::sum(a));
        RD(k, "variance", acc::variance(a));
        RD(k, "sum_of_weights", acc::sum_of_weights(a));
        RD(k, "weighted_sum_of_variates", acc::weighted_sum_of_variates(a));
        RD(k, "weighted_mean_of_variates", (acc::mean_of_variates<VT, V>(a)));
        RD(k, "covariance", acc::weighted_covariance(a));
    }
#endif
}

static void reg() {
    std::string t = NAME;
    one<V1>("1");
    one<V2>("2");
    {
        typedef accumulator_set<T, stats<tag::count, tag::mean_of_variates<VT, V1>(immediate), tag::mean_of_variates<VT, V2>(immediate),
            tag::mean(immediate)> > A;
        auto k = mk<A>("covi_" + t);
        PUSHU;
        RDS(k, "mean_of_variates", return e.at("v") == "1" ? fmt(acc::mean_of_variates<VT, V1>(a))
                                                           : fmt(acc::mean_of_variates<VT, V2>(a)););
    }
    {
        typedef accumulator_set<T, stats<tag::count, tag::mean_of_variates<VT, V1>(immediate), tag::mean_of_variates<VT, V2>(immediate),
            tag::mean(immediate)>, double> A;
        auto k = mk<A>("wcovi_" + t);
        PUSHW;
        RD(k, "sum_of_weights", acc::sum_of_weights(a));
        RDS(k, "weighted_mean_of_variates", return e.at("v") == "1" ? fmt(acc::mean_of_variates<VT, V1>(a))
                                                                    : fmt(acc::mean_of_variates<VT, V2>(a)););
    }
    {
        // two variates side by side: see known_findings.txt
        typedef accumulator_set<T, stats<tag::mean_of_variates<VT, V1>, tag::mean_of_variates<VT, V2> > > A;
        auto k = kind<A>("two_" + t);
        k->make = [](Args const &) { return new A; };
        PUSHU;
        RD(k, "count", acc::count(a));
        RDS(k, "mean_of_variates", return e.at("v") == "1" ? fmt(acc::mean_of_variates<VT, V1>(a))
                                                           : fmt(acc::mean_of_variates<VT, V2>(a)););
    }
}
static Registrar r(&reg);
