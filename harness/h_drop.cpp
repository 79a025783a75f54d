// sets with droppable library features
#include "acc.hpp"
#include <boost/accumulators/framework/features.hpp>
#include <boost/accumulators/statistics.hpp>
#define T TYPE
// a lazy mean whose droppable accumulator keeps its last result
template<class Sample> struct lazy_mean_impl : boost::accumulators::accumulator_base {
    typedef double result_type;
    lazy_mean_impl(boost::accumulators::dont_care) {}
    template<class Args> result_type result(Args const &args) const { return double(boost::accumulators::sum(args)) / double(boost::accumulators::count(args)); }
    template<class Archive> void serialize(Archive &, unsigned) {}
};
namespace boost { namespace accumulators {
namespace tag { struct cached_mean : depends_on<count, sum> { typedef with_cached_result<lazy_mean_impl<mpl::_1> > impl; }; }
template<> struct feature_of<tag::cached_mean> : feature_of<tag::mean> {};
}}
template<class A> static std::shared_ptr<Kind<A> > mkc(std::string const &n) {
    auto k = kind_noassign<A>(n);
    k->make = [](Args const &) { return new A; };
    PERSISTABLE(k, A);
    return k;
}
template<class A> static std::shared_ptr<Kind<A> > mk(std::string const &n) {
    auto k = kind<A>(n);
    k->make = [](Args const &) { return new A; };
    PERSISTABLE(k, A);
    return k;
}
#define PUSH k->push = [](auto &a, Args const &e) { a(arg<T>(e, "x")); }
#define PUSHW k->push = [](auto &a, Args const &e) { a(arg<T>(e, "x"), weight = arg<double>(e, "w")); }
#define DROP(f) k->dr[#f] = [](auto &a) { a.template drop<tag::f>(); }
#define RF(f) RD(k, #f, acc::f(a))
#define RM RD(k, "moment2", acc::moment<2>(a)); RD(k, "moment3", acc::moment<3>(a))
static void reg() {
    std::string t = NAME;
    { auto k = mk<accumulator_set<T, stats<tag::count, droppable<tag::sum> > > >("dl1_" + t);
      PUSH; RF(count); RF(sum); DROP(sum); }
    { auto k = mk<accumulator_set<T, stats<droppable<tag::mean> > > >("dl2_" + t);
      PUSH; RF(count); RF(sum); RF(mean); DROP(mean); }
    { auto k = mk<accumulator_set<T, features<tag::sum, droppable<tag::mean> > > >("dl3_" + t);
      PUSH; RF(count); RF(sum); RF(mean); DROP(mean); }
    { auto k = mk<accumulator_set<T, stats<droppable<tag::mean(immediate)>, droppable<tag::sum> > > >("dl4_" + t);
      PUSH; RF(count); RF(sum); RF(mean); DROP(mean); DROP(sum); }
    { auto k = mk<accumulator_set<T, stats<droppable<tag::sum>, droppable<tag::count>, droppable<tag::mean> > > >("dl5_" + t);
      PUSH; RF(count); RF(sum); RF(mean); DROP(mean); DROP(sum); DROP(count); }
    { auto k = mk<accumulator_set<T, stats<droppable<tag::variance(lazy)>, droppable<tag::mean>, tag::max> > >("dl6_" + t);
      PUSH; RF(count); RF(sum); RF(mean); RD(k, "moment2", acc::moment<2>(a)); RF(variance); RF(max); DROP(mean); DROP(variance); }
    { auto k = mk<accumulator_set<T, stats<droppable<tag::variance>, droppable<tag::mean(immediate)>, droppable<tag::min> > > >("dl7_" + t);
      PUSH; RF(count); RF(mean); RF(variance); RF(min); DROP(mean); DROP(variance); DROP(min); }
    { auto k = mk<accumulator_set<T, stats<droppable<tag::skewness>, droppable<tag::variance(lazy)>, tag::sum> > >("dl8_" + t);
      PUSH; RF(count); RF(sum); RF(mean); RM; RF(variance); RF(skewness); DROP(variance); DROP(skewness); }
    { auto k = mk<accumulator_set<T, features<tag::count, stats<droppable<tag::mean>, droppable<tag::max> > > > >("dl9_" + t);
      PUSH; RF(count); RF(sum); RF(mean); RF(max); DROP(mean); DROP(max); }
    { auto k = mkc<accumulator_set<T, stats<droppable<tag::cached_mean>, tag::count> > >("dl10_" + t);
      PUSH; RF(count); RF(sum); RF(mean); DROP(mean); }
    { auto k = mkc<accumulator_set<T, stats<droppable<tag::variance(lazy)>, droppable<tag::cached_mean>, droppable<tag::sum> > > >("dl11_" + t);
      PUSH; RF(count); RF(sum); RF(mean); RD(k, "moment2", acc::moment<2>(a)); RF(variance); DROP(mean); DROP(variance); DROP(sum); }
#ifndef PERSIST
    { auto k = mk<accumulator_set<T, stats<droppable<tag::mean>, droppable<tag::sum> >, double> >("wdl1_" + t);
      PUSHW; RF(sum_of_weights); RF(sum); RF(mean); DROP(mean); DROP(sum); }
#endif
    { auto k = mk<accumulator_set<T, stats<droppable<tag::mean(immediate)>, droppable<tag::count> >, double> >("wdl2_" + t);
      PUSHW; RF(sum_of_weights); RF(count); RF(mean); DROP(mean); DROP(count); }
#ifndef PERSIST
    { auto k = mk<accumulator_set<T, stats<droppable<tag::variance(lazy)>, tag::sum_of_weights>, double> >("wdl3_" + t);
      PUSHW; RF(sum_of_weights); RF(count); RF(sum); RF(mean); RD(k, "moment2", acc::weighted_moment<2>(a)); RF(variance); DROP(variance); }
#endif
    { auto k = mk<accumulator_set<T, stats<droppable<tag::variance>, droppable<tag::sum>, tag::max>, double> >("wdl4_" + t);
      PUSHW; RF(sum_of_weights); RF(count); RF(sum); RF(mean); RF(variance); RF(max); DROP(variance); DROP(sum); }
}
static Registrar r(&reg);
