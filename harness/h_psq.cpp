// the P^2 algorithm and its extensions (C14, C15, C21): -DTYPE, -DNAME
#include "acc.hpp"
#include <boost/accumulators/statistics/p_square_quantile.hpp>
#include <boost/accumulators/statistics/weighted_p_square_quantile.hpp>
#include <boost/accumulators/statistics/p_square_cumul_dist.hpp>
#include <boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp>
#include <boost/accumulators/statistics/extended_p_square.hpp>
#include <boost/accumulators/statistics/weighted_extended_p_square.hpp>
#include <boost/accumulators/statistics/extended_p_square_quantile.hpp>
#include <boost/accumulators/statistics/median.hpp>
#include <boost/accumulators/statistics/weighted_median.hpp>
typedef TYPE T;

template<class A> static std::shared_ptr<Kind<A> > mk(std::string const &n) {
    auto k = kind<A>(n);
    PERSISTABLE(k, A);
    RD(k, "count", acc::count(a));
    return k;
}
#define M0 k->make = [](Args const &) { return new A; }
#define MQ k->make = [](Args const &p) { return new A(quantile_probability = arg<double>(p, "q")); }
#define MC k->make = [](Args const &p) { return new A(tag::p_square_cumulative_distribution::num_cells = arg<std::size_t>(p, "b")); }
#define ME k->make = [](Args const &p) { std::vector<double> v = arg<std::vector<double> >(p, "ps"); \
    return new A(tag::extended_p_square::probabilities = v); }
#define PU k->push = [](A &a, Args const &e) { a(arg<T>(e, "x")); }
#define PW k->push = [](A &a, Args const &e) { a(arg<T>(e, "x"), weight = arg<double>(e, "w")); }
static void reg() {
    std::string t = NAME;
#if PART == 1
    {
        typedef accumulator_set<T, stats<tag::p_square_quantile> > A;
        auto k = mk<A>("psq_" + t); MQ; PU;
        RD(k, "p_square_quantile", acc::p_square_quantile(a));
    }
    {
        typedef accumulator_set<T, stats<tag::weighted_p_square_quantile>, double> A;
        auto k = mk<A>("wpsq_" + t); MQ; PW;
        RD(k, "p_square_quantile", acc::weighted_p_square_quantile(a));
    }
    {
        typedef accumulator_set<T, stats<tag::p_square_quantile>, double> A;
        auto k = mk<A>("wpsqn_" + t); MQ; PW;
        RD(k, "p_square_quantile", acc::p_square_quantile(a));
    }
    {
        typedef accumulator_set<T, stats<tag::median(with_p_square_quantile)> > A;
        auto k = mk<A>("psqmed_" + t); M0; PU;
        RD(k, "p_square_median", acc::median(a));
    }
#ifndef PERSIST
    {
        typedef accumulator_set<T, stats<tag::median>, double> A;
        auto k = mk<A>("wpsqmed_" + t); M0; PW;
        RD(k, "p_square_median", acc::median(a));
    }
#endif
    {
        typedef accumulator_set<T, stats<tag::median(with_p_square_cumulative_distribution)> > A;
        auto k = mk<A>("cdfmed_" + t); MC; PU;
        RD(k, "cdf_median", acc::median(a));
        RDS(k, "cdf", return fmt_pairs(acc::p_square_cumulative_distribution(a)););
    }
    {
        typedef accumulator_set<T, stats<tag::median(with_p_square_cumulative_distribution)>, double> A;
        auto k = mk<A>("wcdfmed_" + t); MC; PW;
        RD(k, "cdf_median", acc::median(a));
        RDS(k, "cdf", return fmt_pairs(acc::weighted_p_square_cumulative_distribution(a)););
    }
    {
        typedef accumulator_set<T, stats<tag::p_square_cumulative_distribution> > A;
        auto k = mk<A>("cdf_" + t); MC; PU;
        RDS(k, "cdf", return fmt_pairs(acc::p_square_cumulative_distribution(a)););
    }
    {
        typedef accumulator_set<T, stats<tag::weighted_p_square_cumulative_distribution>, double> A;
        auto k = mk<A>("wcdf_" + t); MC; PW;
        RDS(k, "cdf", return fmt_pairs(acc::weighted_p_square_cumulative_distribution(a)););
    }
#else
#define EXT(name, tg, W, push, ext) { \
        typedef accumulator_set<T, stats<tg > W > A; \
        auto k = mk<A>(name + t); ME; push; \
        RDS(k, "ext", auto r = ext(a); std::vector<double> v; for (std::size_t i = 0; i < (std::size_t)r.size(); ++i) v.push_back(r[i]); return fmt(v);); }
#define EXTQ(name, tg, W, push, ext) { \
        typedef accumulator_set<T, stats<tg > W > A; \
        auto k = mk<A>(name + t); ME; push; \
        RDS(k, "ext", auto r = ext(a); std::vector<double> v; for (std::size_t i = 0; i < (std::size_t)r.size(); ++i) v.push_back(r[i]); return fmt(v);); \
        RD(k, "ext_quantile", acc::quantile(a, quantile_probability = P(e))); }
#define NOW
#define DW , double
    EXT("ext_", tag::extended_p_square, NOW, PU, acc::extended_p_square)
    EXT("wext_", tag::weighted_extended_p_square, DW, PW, acc::weighted_extended_p_square)
    EXTQ("extl_", tag::extended_p_square_quantile, NOW, PU, acc::extended_p_square)
    EXTQ("extq_", tag::extended_p_square_quantile(quadratic), NOW, PU, acc::extended_p_square)
    EXTQ("wextl_", tag::weighted_extended_p_square_quantile, DW, PW, acc::weighted_extended_p_square)
    EXTQ("wextq_", tag::extended_p_square_quantile(quadratic), DW, PW, acc::weighted_extended_p_square)
#endif
}
static Registrar r(&reg);
