// the numeric function objects: "call NAME:LEFT:RIGHT x=.. y=.."
#include "acc.hpp"
#include <boost/accumulators/numeric/functional/vector.hpp>
#include <boost/accumulators/numeric/functional/valarray.hpp>
#include <boost/accumulators/numeric/functional/complex.hpp>
#include <boost/accumulators/numeric/functional.hpp>
#include <boost/accumulators/statistics/covariance.hpp>
namespace nu = boost::numeric;
namespace fu = boost::numeric::functional;
namespace {
typedef std::vector<double> vd; typedef std::vector<int> vi; typedef std::valarray<double> ad; typedef std::valarray<int> ai;
typedef std::vector<float> vf; typedef std::vector<long long> vl; typedef std::valarray<float> af; typedef std::valarray<long long> al;
typedef std::valarray<bool> ab; typedef std::complex<float> cf; typedef unsigned short ush;
typedef std::complex<double> cd; typedef long double ldb; typedef long long ll; typedef unsigned long long ull;
template<class X> std::string show(X const &x) { return fmt(x); }
std::string show(std::valarray<bool> const &v) { std::string s = "["; for (std::size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += v[i] ? "1" : "0"; } return s + "]"; }
// the function object template and the function of the same name must agree
template<class A, class B> std::string both(A const &a, B const &b) { std::string s = show(a); return s == show(b) ? s : s[0] == '[' ? "0" : "[0,0]"; }
#define B2(OP, TL, TR) calls()[#OP ":" #TL ":" #TR] = [](std::map<std::string, std::unique_ptr<Obj> > &, Args const &e) { \
    TL const x = arg<TL>(e, "x"); TR const y = arg<TR>(e, "y"); return both(fu::OP<TL const, TR const>()(x, y), nu::OP(x, y)); };
#define V2(OP, TL, TR) calls()[#OP ":" #TL ":" #TR] = [](std::map<std::string, std::unique_ptr<Obj> > &, Args const &e) { \
    TL const x = arg<TL>(e, "x"); TR const y = arg<TR>(e, "y"); return show(std::valarray<bool>(fu::OP<TL const, TR const>()(x, y))); };
#define A2(OP, TL, TR) calls()[#OP ":" #TL ":" #TR] = [](std::map<std::string, std::unique_ptr<Obj> > &, Args const &e) { \
    TL x = arg<TL>(e, "x"), x2 = x; TR const y = arg<TR>(e, "y"); fu::OP<TL, TR const>()(x, y); nu::OP(x2, y); return both(x, x2); };
#define U1(OP, TL) calls()[#OP ":" #TL] = [](std::map<std::string, std::unique_ptr<Obj> > &, Args const &e) { \
    TL const x = arg<TL>(e, "x"); return both(fu::OP<TL const>()(x), nu::OP(x)); };
#define N1(OP, TL) calls()[#OP ":" #TL] = [](std::map<std::string, std::unique_ptr<Obj> > &, Args const &e) { \
    TL const x = arg<TL>(e, "x"); return both(TL(fu::OP<TL const>()(x)), TL(nu::OP(x))); };
#define C0(NAME, TL) calls()[#NAME ":" #TL] = [](std::map<std::string, std::unique_ptr<Obj> > &, Args const &) { return show(TL(nu::NAME<TL>::value)); };
#define OUTER(TL, TR) calls()["outer_product:" #TL ":" #TR] = [](std::map<std::string, std::unique_ptr<Obj> > &, Args const &e) { \
    TL const x = arg<TL>(e, "x"); TR const y = arg<TR>(e, "y"); return show(nu::outer_product(x, y)); };
#define OUTERM(TL, TR) calls()["outer_product:" #TL ":" #TR] = [](std::map<std::string, std::unique_ptr<Obj> > &, Args const &e) { \
    TL const x = arg<TL>(e, "x"); TR const y = arg<TR>(e, "y"); auto m = nu::outer_product(x, y); std::string s = "["; \
    for (std::size_t i = 0; i < m.size1(); ++i) for (std::size_t j = 0; j < m.size2(); ++j) { if (s.size() > 1) s += ","; s += fmt(m(i, j)); } return s + "]"; };
#define PR(TO, FROM) calls()["promote:" #TO ":" #FROM] = [](std::map<std::string, std::unique_ptr<Obj> > &, Args const &e) { \
    FROM const x = arg<FROM>(e, "x"); return show(nu::promote<TO>(x)); };
#define ARITH(TL, TR) B2(plus, TL, TR) B2(minus, TL, TR) B2(multiplies, TL, TR) B2(divides, TL, TR)
#define CMP(TL, TR) B2(less, TL, TR) B2(less_equal, TL, TR) B2(greater, TL, TR) B2(greater_equal, TL, TR) B2(equal_to, TL, TR) B2(not_equal_to, TL, TR)
#define CMPV(TL, TR) V2(less, TL, TR) V2(less_equal, TL, TR) V2(greater, TL, TR) V2(greater_equal, TL, TR) V2(equal_to, TL, TR) V2(not_equal_to, TL, TR)
#define ASGN(TL, TR) A2(assign, TL, TR) A2(plus_assign, TL, TR) A2(minus_assign, TL, TR) A2(multiplies_assign, TL, TR) A2(divides_assign, TL, TR)
#define MM(TL, TR) A2(min_assign, TL, TR) A2(max_assign, TL, TR)
#define IDS(TL) C0(one, TL) C0(zero, TL) C0(default_, TL)
#define LIM(TL) U1(as_min, TL) U1(as_max, TL) U1(as_zero, TL) U1(as_one, TL)
#define SCALAR(TL, TR) ARITH(TL, TR) CMP(TL, TR) ASGN(TL, TR) MM(TL, TR) B2(fdiv, TL, TR)
#define SCALARC(TL, TR) ARITH(TL, TR) CMP(TL, TR) B2(fdiv, TL, TR)
#if PART == 4
void reg() {
    SCALAR(int, ll) SCALAR(short, ll) SCALAR(unsigned, ll) SCALAR(unsigned, int) SCALAR(ull, ull) SCALAR(unsigned, ull) SCALAR(ull, int)
    SCALAR(double, float) SCALAR(double, ll) SCALAR(double, unsigned) SCALAR(ldb, ll)
    SCALARC(ll, double) SCALARC(unsigned, double) SCALARC(unsigned, float) SCALARC(int, short) SCALARC(int, float) SCALARC(ull, double)
    B2(modulus, ll, ll) B2(modulus, ull, ull) B2(modulus, int, ll) B2(modulus, unsigned, ll) A2(modulus_assign, ll, ll) A2(modulus_assign, unsigned, unsigned)
    LIM(ull) IDS(ll) IDS(unsigned) IDS(ull) IDS(short) IDS(ldb) PR(ldb, ll) PR(ldb, int) PR(ull, unsigned) PR(ll, unsigned) PR(ll, short) PR(double, short) PR(float, short)
    U1(unary_plus, ll) U1(complement, ll) U1(logical_not, ll) U1(unary_minus, ldb) U1(unary_minus, float)
}
#elif PART == 5
#define ALL4(TL, TR) ARITH(TL, TR)
#define SCL(TL, TR) B2(multiplies, TL, TR) B2(divides, TL, TR) B2(fdiv, TL, TR)
#define PMM(TL) A2(plus_assign, TL, TL) MM(TL, TL) N1(unary_minus, TL) LIM(TL)
void reg() {
    ARITH(ush, ush) B2(fdiv, ush, ush) A2(plus_assign, ush, ush) MM(ush, ush) CMP(ush, ush) CMP(ush, int)
    ARITH(ush, int) ARITH(ll, ush) B2(fdiv, ush, int) B2(fdiv, ll, ush) LIM(ush) IDS(ush) IDS(cf) U1(as_zero, cf) U1(as_one, cf)
    ARITH(vf, vf) ARITH(vl, vl) ARITH(af, af) ARITH(al, al) ARITH(vl, vi) ARITH(vf, vd) B2(plus, ad, af) B2(plus, al, ai)
    B2(modulus, ai, ai) B2(modulus, al, al) B2(modulus, ai, int)
    SCL(vf, float) SCL(vf, int) SCL(vf, double) SCL(vl, int) SCL(vl, ll) SCL(vl, double)
    SCL(af, float) SCL(af, int) SCL(af, double) SCL(al, int) SCL(al, ll) SCL(al, double)
    ARITH(ad, double) ARITH(double, ad) ARITH(int, ai)
    PMM(vf) PMM(vl) PMM(af) PMM(al) PR(vd, vf) PR(vd, vl) PR(vl, vi) PR(ad, af) PR(al, ai)
    OUTER(double, vd) OUTERM(vf, vf) OUTERM(vd, vi) OUTERM(vl, vl)
    B2(plus, cf, cf) B2(minus, cf, cf) B2(multiplies, cf, cf) B2(divides, cf, cf) B2(equal_to, cf, cf) A2(plus_assign, cf, cf)
    SCL(cf, int) SCL(cf, float) SCL(cf, double) SCL(cd, float)
    calls()["promote_all:ab"] = [](std::map<std::string, std::unique_ptr<Obj> > &, Args const &e) {
        ai const v = arg<ai>(e, "x"); ab const x = (v != 0); bool r = nu::promote<bool>(x), q = nu::promote<bool const>(x); return r == q ? show(int(r)) : std::string("[0]"); };
}
#elif PART == 1
void reg() {
    SCALAR(int, int) SCALAR(int, double) SCALAR(double, int) SCALAR(double, double) SCALAR(float, float)
    SCALAR(unsigned, unsigned) SCALAR(short, short) SCALAR(ll, ll) SCALAR(int, unsigned) SCALAR(ll, int)
    B2(modulus, int, int) B2(modulus, unsigned, unsigned) B2(modulus, ll, int) A2(modulus_assign, int, int)
    U1(unary_plus, int) U1(unary_minus, int) U1(complement, int) U1(logical_not, int) U1(unary_plus, double) U1(unary_minus, double) U1(logical_not, double)
    U1(unary_minus, ll)
}
#elif PART == 2
void reg() {
    SCALAR(ldb, ldb) SCALAR(float, double) SCALAR(ldb, int) SCALAR(int, ldb) SCALAR(short, int) SCALAR(float, int)
    LIM(int) LIM(unsigned) LIM(short) LIM(ll) LIM(float) LIM(double) LIM(ldb)
    U1(as_zero, cd) U1(as_one, cd) IDS(int) IDS(double) IDS(cd) IDS(float) OUTER(double, double) OUTER(int, double)
    PR(double, int) PR(double, float) PR(ldb, double) PR(ll, int) PR(int, int) PR(double, double) PR(double, ll) PR(double, unsigned)
    B2(plus, cd, cd) B2(minus, cd, cd) B2(multiplies, cd, cd) B2(divides, cd, cd) B2(equal_to, cd, cd)
    B2(multiplies, cd, int) B2(divides, cd, int) B2(multiplies, cd, double) B2(divides, cd, double) B2(fdiv, cd, int) B2(fdiv, cd, double)
    A2(plus_assign, cd, cd)
}
#else
void reg() {
    B2(plus, vd, vd) B2(minus, vd, vd) B2(multiplies, vd, vd) B2(divides, vd, vd)
    B2(plus, vi, vi) B2(minus, vi, vi) B2(multiplies, vi, vi) B2(divides, vi, vi)
    B2(plus, vi, vd) B2(minus, vd, vi) B2(multiplies, vi, vd) B2(divides, vd, vi)
    B2(multiplies, vd, double) B2(divides, vd, double) B2(multiplies, double, vd) B2(multiplies, vi, int) B2(divides, vi, int)
    B2(multiplies, vi, double) B2(divides, vi, double) B2(multiplies, int, vd)
    B2(fdiv, vd, int) B2(fdiv, vi, int) B2(fdiv, vi, double) B2(fdiv, vd, double) B2(fdiv, vi, unsigned)
    A2(plus_assign, vd, vd) A2(plus_assign, vi, vi) MM(vd, vd) MM(vi, vi) U1(unary_minus, vd) U1(unary_minus, vi)
    LIM(vd) LIM(vi) PR(vd, vi) PR(vd, vd)
    B2(plus, ad, ad) B2(minus, ad, ad) B2(multiplies, ad, ad) B2(divides, ad, ad)
    B2(plus, ai, ai) B2(minus, ai, ai) B2(multiplies, ai, ai) B2(divides, ai, ai) B2(plus, ai, ad) B2(plus, ad, ai)
    B2(multiplies, ad, double) B2(divides, ad, double) B2(multiplies, ai, int) B2(divides, ai, int) B2(multiplies, ai, double) B2(divides, ai, double)
    B2(multiplies, ad, int) B2(divides, ad, int)
    B2(fdiv, ad, int) B2(fdiv, ai, int) B2(fdiv, ai, double) B2(fdiv, ad, double) B2(fdiv, ai, unsigned)
    CMPV(ad, ad) CMPV(ai, ai) A2(plus_assign, ad, ad) A2(plus_assign, ai, ai) A2(minus_assign, ad, ad) A2(multiplies_assign, ad, ad) A2(divides_assign, ad, ad) MM(ad, ad) MM(ai, ai)
    N1(unary_minus, ad) N1(unary_minus, ai) OUTER(vd, double) OUTERM(vd, vd) OUTERM(vi, vi) LIM(ad) LIM(ai) PR(ad, ai) PR(ad, ad)
}
#endif
Registrar r(&reg);
}
