// samples that are vectors, arrays or complex numbers
#include "acc.hpp"
#ifdef PERSIST
#include <boost/serialization/vector.hpp>
#include <boost/serialization/valarray.hpp>
#include <boost/serialization/complex.hpp>
#endif
#include <boost/accumulators/numeric/functional/vector.hpp>
#include <boost/accumulators/numeric/functional/valarray.hpp>
#include <boost/accumulators/numeric/functional/complex.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_window.hpp>
#ifndef WT
#define WT double
#endif
typedef TYPE V;
#ifdef NOVAR            // valarray<int> minus valarray<double> does not exist
#define VARI(...)
#else
#define VARI(...) , __VA_ARGS__
#endif
template<class M> std::string fmt_matrix(M const &m) {
    std::string s = "[";
    for (std::size_t i = 0; i < m.size1(); ++i) for (std::size_t j = 0; j < m.size2(); ++j) { if (s.size() > 1) s += ","; s += fmt(m(i, j)); }
    return s + "]";
}
template<class X> static X zero(Args const &e) {
#ifdef CPLX
    return X();
#else
    return X(arg<unsigned>(e, "dim"));
#endif
}
static bool tmp(Args const &e) { return e.count("tmp") && e.at("tmp") == "1"; }      // pass by name, as temporaries
template<class A> static std::shared_ptr<Kind<A> > mk(std::string const &n) {
    auto k = kind<A>(n);
    PERSISTABLE(k, A);
    k->make = [](Args const &e) { V z(zero<V>(e)); return tmp(e) ? new A(sample = zero<V>(e)) : new A(sample = z); };
    k->push = [](A &a, Args const &e) { if (tmp(e)) a(sample = arg<V>(e, "x")); else a(arg<V>(e, "x")); };
    return k;
}
template<class A> static std::shared_ptr<Kind<A> > mkw(std::string const &n) {
    auto k = kind<A>(n);
    PERSISTABLE(k, A);
    k->make = [](Args const &e) { V z(zero<V>(e)); return tmp(e) ? new A(sample = zero<V>(e)) : new A(sample = z); };
    k->push = [](A &a, Args const &e) { if (tmp(e)) a(weight = arg<WT>(e, "w"), sample = arg<V>(e, "x")); else a(arg<V>(e, "x"), weight = arg<WT>(e, "w")); };
    return k;
}
static void reg() {
    std::string n = NAME;
    {
#ifdef CPLX
        typedef accumulator_set<V, stats<tag::sum, tag::mean> > A;
#else
        typedef accumulator_set<V, stats<tag::sum, tag::mean, tag::min, tag::max, tag::moment<2>, tag::moment<3>, tag::variance(lazy)> > A;
#endif
        auto k = mk<A>("vl_" + n);
        RD(k, "count", acc::count(a)); RD(k, "sum", acc::sum(a)); RD(k, "mean", acc::mean(a));
#ifndef CPLX
        RD(k, "min", (acc::min)(a)); RD(k, "max", (acc::max)(a));
        RD(k, "moment2", acc::moment<2>(a)); RD(k, "moment3", acc::moment<3>(a)); RD(k, "variance", acc::variance(a));
#endif
    }
    {
#ifdef CPLX
        typedef accumulator_set<V, stats<tag::mean(immediate)> > A;
#else
        typedef accumulator_set<V, stats<tag::mean(immediate) VARI(tag::variance(immediate))> > A;
#endif
        auto k = mk<A>("vi_" + n);
        RD(k, "count", acc::count(a)); RD(k, "mean", acc::mean(a));
#if !defined CPLX && !defined NOVAR
        RD(k, "variance", acc::variance(a));
#endif
    }
#ifndef PERSIST
    {
#ifdef CPLX
        typedef accumulator_set<V, stats<tag::count, tag::weighted_mean, tag::weighted_sum>, WT> A;
#else
        typedef accumulator_set<V, stats<tag::count, tag::weighted_mean, tag::weighted_sum VARI(tag::weighted_moment<2>, tag::weighted_variance(lazy))>, WT> A;
#endif
        auto k = mkw<A>("vw_" + n);
        RD(k, "count", acc::count(a)); RD(k, "sum", acc::weighted_sum(a)); RD(k, "mean", acc::weighted_mean(a));
        RD(k, "sum_of_weights", acc::sum_of_weights(a));
#if !defined CPLX && !defined NOVAR
        RD(k, "moment2", acc::weighted_moment<2>(a)); RD(k, "variance", acc::weighted_variance(a));
#endif
    }
#endif
    {
#ifdef CPLX
        typedef accumulator_set<V, stats<tag::count, tag::weighted_mean(immediate)>, WT> A;
#else
        typedef accumulator_set<V, stats<tag::count, tag::weighted_mean(immediate) VARI(tag::weighted_variance(immediate))>, WT> A;
#endif
        auto k = mkw<A>("vwi_" + n);
        RD(k, "count", acc::count(a)); RD(k, "mean", acc::weighted_mean(a));
        RD(k, "sum_of_weights", acc::sum_of_weights(a));
#if !defined CPLX && !defined NOVAR
        RD(k, "variance", acc::weighted_variance(a));
#endif
    }
#ifdef ROLL
    {
        typedef accumulator_set<V, stats<tag::count, tag::rolling_sum, tag::rolling_mean(lazy), tag::rolling_count> > A;
        auto k = kind<A>("vr_" + n);
        PERSISTABLE(k, A);
        k->make = [](Args const &e) { V z(zero<V>(e)); int n = arg<int>(e, "N"); return tmp(e) ? new A(sample = zero<V>(e), tag::rolling_window::window_size = n) : new A(tag::rolling_window::window_size = n, sample = z); };
        k->push = [](A &a, Args const &e) { if (tmp(e)) a(sample = arg<V>(e, "x")); else a(arg<V>(e, "x")); };
        RD(k, "count", acc::count(a)); RD(k, "rolling_count", acc::rolling_count(a));
        RD(k, "rolling_sum", acc::rolling_sum(a)); RD(k, "rolling_mean", acc::rolling_mean(a));
    }
#endif
#ifdef COV
    {   // scalar sample, vector variate
        typedef accumulator_set<double, stats<tag::covariance<V, tag::covariate1> > > A;
        auto k = kind<A>("vsc_" + n);
        PERSISTABLE(k, A);
        k->make = [](Args const &e) { V z(arg<unsigned>(e, "cdim")); return tmp(e) ? new A(covariate1 = V(z)) : new A(covariate1 = z); };
        k->push = [](A &a, Args const &e) { a(arg<double>(e, "x"), covariate1 = arg<V>(e, "c")); };
        RD(k, "count", acc::count(a)); RD(k, "mean", acc::mean(a));
        RDS(k, "mean_of_variates", return fmt((acc::mean_of_variates<V, tag::covariate1>(a))););
        RDS(k, "covariance", return fmt((acc::covariance(a))););
    }
#ifndef PERSIST
    {
        typedef accumulator_set<double, stats<tag::weighted_covariance<V, tag::covariate1> >, double> A;
        auto k = kind<A>("wvsc_" + n);
        k->make = [](Args const &e) { V z(arg<unsigned>(e, "cdim")); return tmp(e) ? new A(covariate1 = V(z)) : new A(covariate1 = z); };
        k->push = [](A &a, Args const &e) { a(arg<double>(e, "x"), weight = arg<double>(e, "w"), covariate1 = arg<V>(e, "c")); };
        RD(k, "count", acc::count(a)); RD(k, "mean", acc::mean(a));
        RDS(k, "weighted_mean_of_variates", return fmt((acc::weighted_mean_of_variates<V, tag::covariate1>(a))););
        RDS(k, "covariance", return fmt((acc::weighted_covariance(a))););
    }
#endif
    {   // vector sample, vector variate
        typedef accumulator_set<V, stats<tag::covariance<V, tag::covariate1> > > A;
        auto k = kind<A>("vvc_" + n);
        PERSISTABLE(k, A);
        k->make = [](Args const &e) { V y(zero<V>(e)), z(arg<unsigned>(e, "cdim")); return tmp(e) ? new A(sample = V(y), covariate1 = V(z)) : new A(covariate1 = z, sample = y); };
        k->push = [](A &a, Args const &e) { a(arg<V>(e, "x"), covariate1 = arg<V>(e, "c")); };
        RD(k, "count", acc::count(a)); RD(k, "mean", acc::mean(a));
        RDS(k, "mean_of_variates", return fmt((acc::mean_of_variates<V, tag::covariate1>(a))););
        RDS(k, "covariance", return fmt_matrix((acc::covariance(a))););
    }
#ifndef PERSIST
    {
        typedef accumulator_set<V, stats<tag::weighted_covariance<V, tag::covariate1> >, double> A;
        auto k = kind<A>("wvvc_" + n);
        k->make = [](Args const &e) { V y(zero<V>(e)), z(arg<unsigned>(e, "cdim")); return tmp(e) ? new A(sample = V(y), covariate1 = V(z)) : new A(covariate1 = z, sample = y); };
        k->push = [](A &a, Args const &e) { a(arg<V>(e, "x"), weight = arg<double>(e, "w"), covariate1 = arg<V>(e, "c")); };
        RD(k, "count", acc::count(a)); RD(k, "mean", acc::mean(a));
        RDS(k, "weighted_mean_of_variates", return fmt((acc::weighted_mean_of_variates<V, tag::covariate1>(a))););
        RDS(k, "covariance", return fmt_matrix((acc::weighted_covariance(a))););
    }
#endif
#endif
}
static Registrar r(&reg);
