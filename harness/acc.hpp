// helpers for registering accumulator_set kinds
#ifndef VERIF_ACC_HPP
#define VERIF_ACC_HPP
#include "common.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/count.hpp>
#ifdef PERSIST
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/math/special_functions/nonfinite_num_facets.hpp>
#endif
namespace acc = boost::accumulators;
using namespace boost::accumulators;
using namespace vf;

#define RD(k, name, ...) (k)->rd[name] = [](auto &a, Args const &e) -> std::string { (void)e; return fmt(__VA_ARGS__); }
// statements; returns a string
#define RDS(k, name, ...) (k)->rd[name] = [](auto &a, Args const &e) -> std::string { (void)e; __VA_ARGS__ }

namespace vf {
template<class A> void xfer(A const &s, A &d, std::string const &fmt) {
#ifdef PERSIST
    std::stringstream ss;
    if (fmt == "text") {
        // estimators may hold NaN or infinity, which a text archive carries only with these facets
        std::locale l(std::locale::classic(), new boost::math::nonfinite_num_put<char>);
        ss.imbue(std::locale(l, new boost::math::nonfinite_num_get<char>));
        { boost::archive::text_oarchive oa(ss, boost::archive::no_codecvt); const_cast<A &>(s).serialize(oa, 0); }
        { boost::archive::text_iarchive ia(ss, boost::archive::no_codecvt); d.serialize(ia, 0); }
    } else {
        { boost::archive::binary_oarchive oa(ss); const_cast<A &>(s).serialize(oa, 0); }
        { boost::archive::binary_iarchive ia(ss); d.serialize(ia, 0); }
    }
#else
    (void)s; (void)d; (void)fmt;
#endif
}
inline double P(Args const &e) { return arg<double>(e, "p"); }
// the j-th of the comma separated values under a key
template<class T> T at(Args const &e, char const *k, unsigned j) { return conv<T>::from(split(e.at(k)).at(j)); }
}
#ifdef PERSIST
// features without a serialize member: left out where the set is to be saved
#define NP(...) tag::count
#define PERSISTABLE(k, A) (k)->xfer = &xfer<A>
#define IFNP(...)
#else
#define NP(...) __VA_ARGS__
#define PERSISTABLE(k, A) (void)0
#define IFNP(...) __VA_ARGS__
#endif
#endif
