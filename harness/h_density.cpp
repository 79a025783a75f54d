// histogram density and the median read from it (C13, C21): -DTYPE, -DNAME
#include "acc.hpp"
#include <boost/accumulators/statistics/density.hpp>
#include <boost/accumulators/statistics/weighted_density.hpp>
#include <boost/accumulators/statistics/median.hpp>
#include <boost/accumulators/statistics/weighted_median.hpp>
typedef TYPE T;
typedef std::conditional<std::is_same<T, float>::value, float, double>::type W;

template<class A> static std::shared_ptr<Kind<A> > mk(std::string const &n) {
    auto k = kind<A>(n);
    k->make = [](Args const &p) { return new A(tag::density::cache_size = arg<std::size_t>(p, "C"),
                                               tag::density::num_bins = arg<std::size_t>(p, "B")); };
    PERSISTABLE(k, A);
    RD(k, "count", acc::count(a));
    RDS(k, "density", return fmt_pairs(acc::density(a)););
    return k;
}
#define PU k->push = [](A &a, Args const &e) { a(arg<T>(e, "x")); }
#define PW k->push = [](A &a, Args const &e) { a(arg<T>(e, "x"), weight = arg<W>(e, "w")); }
static void reg() {
    std::string t = NAME;
    {
        typedef accumulator_set<T, stats<tag::density> > A;
        auto k = mk<A>("dens_" + t); PU;
    }
    {
        typedef accumulator_set<T, stats<tag::count, tag::weighted_density>, W> A;
        auto k = mk<A>("wdens_" + t); PW;
    }
    {
        typedef accumulator_set<T, stats<tag::count, tag::median(with_density)> > A;
        auto k = mk<A>("densmed_" + t); PU;
        RD(k, "density_median", acc::median(a));
    }
    {
        typedef accumulator_set<T, stats<tag::count, tag::median(with_density)>, W> A;
        auto k = mk<A>("wdensmed_" + t); PW;
        RD(k, "density_median", acc::median(a));
    }
}
static Registrar r(&reg);
