// external, reference and value accumulators: a dependent set d, the set o that owns what d lacks, a variable
#include "acc.hpp"
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/framework/accumulators/external_accumulator.hpp>
#include <boost/accumulators/framework/accumulators/reference_accumulator.hpp>
#include <boost/accumulators/framework/accumulators/value_accumulator.hpp>
#define T TYPE
namespace my {
BOOST_PARAMETER_KEYWORD(tag, sum_acc)
BOOST_PARAMETER_KEYWORD(tag, max_acc)
BOOST_PARAMETER_KEYWORD(tag, ref_acc)
BOOST_PARAMETER_KEYWORD(tag, val_acc)
}
static bool feeds(Args const &e, char who) { char c = e.at("who")[0]; return c == who || c == 'b' || c == 'c'; }
// "c": the dependent set first
#define FEED(O, DEP) { if (e.at("who") == "c") { DEP; O; } else { if (feeds(e, 'o')) { O; } if (feeds(e, 'd')) { DEP; } } }

typedef accumulator_set<T, stats<tag::sum> > SumOwner;
template<class S> struct ByName { SumOwner o; S d; };
template<class S> struct ByRef { SumOwner o; S d; ByRef() : d(my::sum_acc = o) {} ByRef(ByRef const &) : d(my::sum_acc = o) {} };

typedef accumulator_set<void, stats<tag::sum_of_weights>, double> WOwner;
template<class S> struct Wt { WOwner o; S d; };
template<class O, class S> struct OD { O o; S d; };
template<class O, class S> struct ODRef { O o; S d; ODRef() : d(weights = o) {} ODRef(ODRef const &) : d(weights = o) {} };
#define WPUSH k->push = [](A &a, Args const &e) { T x = arg<T>(e, "x"); double w = arg<double>(e, "w"); FEED(a.o(weight = w), a.d(x, weight = w)); }
template<class S, class S2> struct Wt2 { WOwner o; S d; S2 d2; };

template<class A> static std::shared_ptr<Kind<A> > mk(std::string const &n) {
    auto k = kind_noassign<A>(n);
    k->make = [](Args const &) { return new A; };
    return k;
}
template<class S> struct RefVal {
    double var;
    S d;
    RefVal(double v, int val) : var(v), d(my::ref_acc = var, my::val_acc = val) {}
    RefVal(RefVal const &r) : var(r.var), d(my::ref_acc = var, my::val_acc = acc::value_tag<my::tag::val_acc>(r.d)) {}
};
static void reg() {
    std::string t = NAME;
    {
        typedef ByName<accumulator_set<T, stats<tag::mean, tag::external<tag::sum, my::tag::sum_acc> > > > A;
        auto k = mk<A>("xsum_" + t);
        k->push = [](A &a, Args const &e) { T x = arg<T>(e, "x"); FEED(a.o(x), a.d(x)); };
        RD(k, "count", acc::count(a.d));
        RD(k, "mean", acc::mean(a.d, my::sum_acc = a.o));
        RD(k, "sum", acc::sum(a.d, my::sum_acc = a.o));
        RD(k, "osum", acc::sum(a.o));
    }
    {
        typedef ByName<accumulator_set<T, stats<tag::variance(lazy), tag::skewness, tag::external<tag::sum, my::tag::sum_acc> > > > A;
        auto k = mk<A>("xvar_" + t);
        k->push = [](A &a, Args const &e) { T x = arg<T>(e, "x"); FEED(a.o(x), a.d(x)); };
        RD(k, "count", acc::count(a.d));
        RD(k, "mean", acc::mean(a.d, my::sum_acc = a.o));
        RD(k, "variance", acc::variance(a.d, my::sum_acc = a.o));
        RD(k, "skewness", acc::skewness(a.d, my::sum_acc = a.o));
        RD(k, "moment2", acc::moment<2>(a.d));
        RD(k, "osum", acc::sum(a.o));
    }
    {
        typedef ByRef<accumulator_set<T, stats<tag::mean, tag::external<tag::sum, my::tag::sum_acc>,
                                               tag::reference<SumOwner, my::tag::sum_acc> > > > A;
        auto k = mk<A>("xref_" + t);
        k->push = [](A &a, Args const &e) { T x = arg<T>(e, "x"); FEED(a.o(x), a.d(x)); };
        RD(k, "count", acc::count(a.d));
        RD(k, "mean", acc::mean(a.d));
        RD(k, "sum", acc::sum(a.d));
        RD(k, "osum", acc::sum(a.o));
    }
    {
        typedef ByRef<accumulator_set<T, stats<tag::mean, tag::external<tag::sum, my::tag::sum_acc, SumOwner> > > > A;
        auto k = mk<A>("xref2_" + t);
        k->push = [](A &a, Args const &e) { T x = arg<T>(e, "x"); FEED(a.o(x), a.d(x)); };
        RD(k, "count", acc::count(a.d));
        RD(k, "mean", acc::mean(a.d));
        RD(k, "sum", acc::sum(a.d));
        RD(k, "osum", acc::sum(a.o));
    }
    {
        typedef Wt<accumulator_set<T, stats<tag::weighted_mean, tag::variance(lazy), tag::weighted_moment<3> >, external<double> > > A;
        auto k = mk<A>("xwt_" + t);
        k->push = [](A &a, Args const &e) {
            T x = arg<T>(e, "x"); double w = arg<double>(e, "w");
            FEED(a.o(weight = w), a.d(x, weight = w));
        };
        RD(k, "count", acc::count(a.d));
        RD(k, "sum", acc::weighted_sum(a.d));
        RD(k, "mean", acc::weighted_mean(a.d, weights = a.o));
        RD(k, "variance", acc::variance(a.d, weights = a.o));
        RD(k, "moment3", acc::weighted_moment<3>(a.d, weights = a.o));
        RD(k, "sum_of_weights", acc::sum_of_weights(a.d, weights = a.o));
        RD(k, "osum_of_weights", acc::sum_of_weights(a.o));
    }
    {
        // two sets that share the weights of a third
        typedef Wt2<accumulator_set<T, stats<tag::mean>, external<double> >,
                    accumulator_set<T, stats<tag::moment<2>, tag::mean>, external<double> > > A;
        auto k = mk<A>("xwt2_" + t);
        k->push = [](A &a, Args const &e) {
            T x = arg<T>(e, "x"); double w = arg<double>(e, "w");
            FEED(a.o(weight = w), (a.d(x, weight = w), a.d2(x, weight = w)));
        };
        RD(k, "count", acc::count(a.d2));
        RD(k, "sum", acc::weighted_sum(a.d));
        RDS(k, "mean", return (e.count("z") ? fmt(acc::mean(a.d, weights = a.o)) : fmt(acc::mean(a.d2, weights = a.o))););
        RD(k, "moment2", acc::weighted_moment<2>(a.d2, weights = a.o));
        RD(k, "osum_of_weights", acc::sum_of_weights(a.o));
    }
    {
        // incrementally evaluated mean: needs the weights while accumulating, so the owner goes first
        typedef Wt<accumulator_set<T, stats<tag::mean(immediate), tag::max>, external<double> > > A;
        auto k = mk<A>("xwti_" + t);
        k->push = [](A &a, Args const &e) {
            T x = arg<T>(e, "x"); double w = arg<double>(e, "w");
            a.o(weight = w); a.d(x, weight = w, weights = a.o);
        };
        RD(k, "max", acc::max(a.d));
        RD(k, "mean", acc::mean(a.d, weights = a.o));
        RD(k, "osum_of_weights", acc::sum_of_weights(a.o));
    }
    {
        // every feature of the weights alone comes from the owner
        typedef accumulator_set<void, stats<tag::mean_of_weights>, double> O;
        typedef OD<O, accumulator_set<T, stats<tag::mean_of_weights, tag::count, tag::weighted_sum, tag::weighted_skewness>, external<double> > > A;
        auto k = mk<A>("xmow_" + t);
        WPUSH;
        RD(k, "count", acc::count(a.d));
        RD(k, "sum", acc::weighted_sum(a.d));
        RD(k, "mean", acc::weighted_mean(a.d, weights = a.o));
        RD(k, "skewness", acc::weighted_skewness(a.d, weights = a.o));
        RD(k, "mean_of_weights", acc::mean_of_weights(a.d, weights = a.o));
        RD(k, "omean_of_weights", acc::mean_of_weights(a.o));
    }
    {
        typedef accumulator_set<void, stats<tag::mean_of_weights(immediate)>, double> O;
        typedef OD<O, accumulator_set<T, stats<tag::mean_of_weights(immediate), tag::count>, external<double> > > A;
        auto k = mk<A>("xmowi_" + t);
        WPUSH;
        RD(k, "count", acc::count(a.d));
        RD(k, "mean_of_weights", acc::mean_of_weights(a.d, weights = a.o));
        RD(k, "omean_of_weights", acc::mean_of_weights(a.o));
    }
    {
        typedef accumulator_set<void, stats<tag::sum_of_weights_kahan>, double> O;
        typedef OD<O, accumulator_set<T, stats<tag::sum_of_weights_kahan, tag::count, tag::weighted_sum>, external<double> > > A;
        auto k = mk<A>("xwk_" + t);
        WPUSH;
        RD(k, "count", acc::count(a.d));
        RD(k, "sum", acc::weighted_sum(a.d));
        RD(k, "sum_of_weights", acc::sum_of_weights_kahan(a.d, weights = a.o));
        RD(k, "osum_of_weights", acc::sum_of_weights_kahan(a.o));
    }
    {
        // the dependent set keeps a reference to the owner of the weights
        typedef accumulator_set<T, stats<tag::weighted_mean, tag::variance(lazy), tag::kurtosis, tag::reference<WOwner, tag::weights> >, external<double> > D;
        typedef ODRef<WOwner, D> A;
        auto k = mk<A>("xwr_" + t);
        WPUSH;
        RD(k, "count", acc::count(a.d));
        RD(k, "sum", acc::weighted_sum(a.d));
        RD(k, "mean", acc::weighted_mean(a.d));
        RD(k, "variance", acc::variance(a.d));
        RD(k, "kurtosis", acc::kurtosis(a.d));
        RD(k, "sum_of_weights", acc::sum_of_weights(a.d));
        RD(k, "osum_of_weights", acc::sum_of_weights(a.o));
    }
    {
        // incrementally evaluated variance, weights at hand while accumulating
        typedef Wt<accumulator_set<T, stats<tag::mean(immediate), tag::variance, tag::min>, external<double> > > A;
        auto k = mk<A>("xwvi_" + t);
        k->push = [](A &a, Args const &e) {
            T x = arg<T>(e, "x"); double w = arg<double>(e, "w");
            a.o(weight = w); a.d(x, weight = w, weights = a.o);
        };
        RD(k, "min", (acc::min)(a.d));
        RD(k, "count", acc::count(a.d));
        RD(k, "mean", acc::mean(a.d, weights = a.o));
        RD(k, "variance", acc::weighted_variance(a.d, weights = a.o));
        RD(k, "osum_of_weights", acc::sum_of_weights(a.o));
    }
    {
        typedef accumulator_set<T, stats<tag::count> > O;
        typedef OD<O, accumulator_set<T, stats<tag::mean, tag::moment<2>, tag::external<tag::count, my::tag::sum_acc> > > > A;
        auto k = mk<A>("xcnt_" + t);
        k->push = [](A &a, Args const &e) { T x = arg<T>(e, "x"); FEED(a.o(x), a.d(x)); };
        RD(k, "sum", acc::sum(a.d));
        RD(k, "count", acc::count(a.d, my::sum_acc = a.o));
        RD(k, "mean", acc::mean(a.d, my::sum_acc = a.o));
        RD(k, "moment2", acc::moment<2>(a.d, my::sum_acc = a.o));
        RD(k, "ocount", acc::count(a.o));
    }
    {
        typedef accumulator_set<T, stats<tag::mean> > O;
        typedef OD<O, accumulator_set<T, stats<tag::variance(lazy), tag::external<tag::mean, my::tag::sum_acc> > > > A;
        auto k = mk<A>("xmean_" + t);
        k->push = [](A &a, Args const &e) { T x = arg<T>(e, "x"); FEED(a.o(x), a.d(x)); };
        RD(k, "count", acc::count(a.d));
        RD(k, "moment2", acc::moment<2>(a.d));
        RD(k, "mean", acc::mean(a.d, my::sum_acc = a.o));
        RD(k, "xvariance", acc::variance(a.d, my::sum_acc = a.o));
        RD(k, "omean", acc::mean(a.o));
    }
    {
        // two external features from the same owner, under two names
        typedef accumulator_set<T, stats<tag::sum, tag::count, tag::max> > O;
        typedef OD<O, accumulator_set<T, stats<tag::mean, tag::external<tag::sum, my::tag::sum_acc>, tag::external<tag::max, my::tag::max_acc> > > > A;
        auto k = mk<A>("xtwo_" + t);
        k->push = [](A &a, Args const &e) { T x = arg<T>(e, "x"); FEED(a.o(x), a.d(x)); };
        RD(k, "count", acc::count(a.d));
        RD(k, "mean", acc::mean(a.d, my::sum_acc = a.o));
        RD(k, "sum", acc::sum(a.d, my::sum_acc = a.o));
        RD(k, "xmax", (acc::max)(a.d, my::max_acc = a.o));
        RD(k, "osum", acc::sum(a.o));
    }
    {
        typedef RefVal<accumulator_set<T, stats<tag::mean, tag::reference<double, my::tag::ref_acc>, tag::value<int, my::tag::val_acc> > > > A;
        auto k = kind_noassign<A>("rv_" + t);
        k->make = [](Args const &e) { return new A(arg<double>(e, "var"), arg<int>(e, "val")); };
        k->push = [](A &a, Args const &e) {
            if (e.at("who") == "v") a.var = arg<double>(e, "x");
            else if (e.at("who") == "r") acc::reference_tag<my::tag::ref_acc>(a.d) = arg<double>(e, "x");
            else a.d(arg<T>(e, "x"));
        };
        RD(k, "count", acc::count(a.d));
        RD(k, "mean", acc::mean(a.d));
        RDS(k, "ref", return fmt(acc::reference_tag<my::tag::ref_acc>(a.d)););
        RDS(k, "ref2", return fmt((acc::reference<double, my::tag::ref_acc>(a.d))););
        RD(k, "var", a.var);
        RDS(k, "val", return fmt(acc::value_tag<my::tag::val_acc>(a.d)););
        RDS(k, "val2", return fmt((acc::value<int, my::tag::val_acc>(a.d))););
    }
}
static Registrar r(&reg);
