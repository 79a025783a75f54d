// rolling window statistics (C04): -DTYPE, -DNAME
#include "acc.hpp"
#include <boost/accumulators/statistics/rolling_window.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
typedef TYPE T;

template<class A> static std::shared_ptr<Kind<A> > mk(std::string const &n) {
    auto k = kind<A>(n);
    k->make = [](Args const &p) { return new A(tag::rolling_window::window_size = arg<std::size_t>(p, "N")); };
    k->push = [](A &a, Args const &e) { a(arg<T>(e, "x")); };
    PERSISTABLE(k, A);
    RD(k, "count", acc::count(a));
    RD(k, "rolling_count", acc::rolling_count(a));
    RD(k, "rolling_mean", acc::rolling_mean(a));
    RD(k, "rolling_variance", acc::rolling_variance(a));
    return k;
}
static void reg() {
    std::string t = NAME;
    {
        typedef accumulator_set<T, stats<tag::count, tag::rolling_window, tag::rolling_count, tag::rolling_sum,
            tag::rolling_mean(lazy), tag::rolling_moment<2>, tag::rolling_moment<3>, tag::rolling_moment<4>,
            tag::rolling_variance(lazy)> > A;
        auto k = mk<A>("roll_lazy_" + t);
        RDS(k, "rolling_window", auto r = acc::rolling_window(a); return fmt(std::vector<T>(r.begin(), r.end())););
        RD(k, "rolling_sum", acc::rolling_sum(a));
        RD(k, "rolling_moment2", acc::rolling_moment<2>(a));
        RD(k, "rolling_moment3", acc::rolling_moment<3>(a));
        RD(k, "rolling_moment4", acc::rolling_moment<4>(a));
    }
    {
        typedef accumulator_set<T, stats<tag::count, tag::rolling_count, tag::rolling_mean(immediate),
            tag::rolling_variance(immediate)> > A;
        mk<A>("roll_imm_" + t);
    }
    {
        typedef accumulator_set<T, stats<tag::rolling_window, tag::rolling_sum, tag::count, tag::rolling_count, tag::rolling_mean, tag::rolling_variance> > A;
        auto k = mk<A>("roll_def_" + t);
        RDS(k, "rolling_window", auto r = acc::rolling_window(a); return fmt(std::vector<T>(r.begin(), r.end())););
        RD(k, "rolling_sum", acc::rolling_sum(a));
    }
    {   // the lazy variance over the mean it finds by itself
        typedef accumulator_set<T, stats<tag::rolling_variance(lazy), tag::count> > A;
        mk<A>("roll_lv_" + t);
    }
    {
        typedef accumulator_set<T, stats<tag::rolling_sum, tag::rolling_mean(immediate), tag::rolling_variance(lazy), tag::count> > A;
        auto k = mk<A>("roll_mix_" + t);
        RD(k, "rolling_sum", acc::rolling_sum(a));
        RD(k, "rolling_moment2", acc::rolling_moment<2>(a));
    }
}
static Registrar r(&reg);
