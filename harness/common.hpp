// Replay harness: executes operation sequences generated from the TLA+ specification against
// the real boost::accumulators and reports, for every operation, what the public API returned.
//
// input  (stdin) : one operation per line, blank-separated tokens
// output (stdout): one line per operation: "ok", a value, "[v,v,...]", "throw" or "err ..."
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <complex>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <valarray>
#include <vector>

namespace vf {

typedef std::map<std::string, std::string> Args;

struct bad_op : std::exception {
    std::string m;
    explicit bad_op(std::string s) : m(std::move(s)) {}
    const char *what() const noexcept override { return m.c_str(); }
};

// ---- exact conversions -----------------------------------------------------------------------
inline long double ld(std::string const &s) {
    std::size_t i = s.find('/');
    if (i == std::string::npos) return std::strtold(s.c_str(), nullptr);
    // n/2^k with n < 2^64: both parts and the quotient are exact in long double
    return std::strtold(s.substr(0, i).c_str(), nullptr) / std::strtold(s.substr(i + 1).c_str(), nullptr);
}
inline std::vector<std::string> split(std::string const &s, char c = ',') {
    std::vector<std::string> r; std::string cur; std::stringstream ss(s);
    while (std::getline(ss, cur, c)) r.push_back(cur);
    return r;
}
template<class T> struct conv {
    static T from(std::string const &s) { return static_cast<T>(ld(s)); }
};
template<class T> struct conv<std::vector<T> > {
    static std::vector<T> from(std::string const &s) {
        std::vector<T> r; for (auto &e : split(s)) r.push_back(conv<T>::from(e)); return r;
    }
};
template<class T> struct conv<std::valarray<T> > {
    static std::valarray<T> from(std::string const &s) {
        auto v = conv<std::vector<T> >::from(s); return std::valarray<T>(v.data(), v.size());
    }
};
template<class T> struct conv<std::complex<T> > {
    static std::complex<T> from(std::string const &s) {
        auto v = conv<std::vector<T> >::from(s); return std::complex<T>(v.at(0), v.at(1));
    }
};
template<class T> T to(std::string const &s) { return conv<T>::from(s); }
template<class T> T arg(Args const &a, char const *k) {
    auto i = a.find(k);
    if (i == a.end()) throw bad_op(std::string("missing argument ") + k);
    return conv<T>::from(i->second);
}
inline bool has(Args const &a, char const *k) { return a.count(k) != 0; }

// ---- exact rendering -------------------------------------------------------------------------
inline std::string fmt(long double v) {
    if (v != v) return "nan";
    char b[64]; std::snprintf(b, sizeof b, "%La", v); return b;
}
inline std::string fmt(double v) {
    if (v != v) return "nan";
    char b[64]; std::snprintf(b, sizeof b, "%a", v); return b;
}
inline std::string fmt(float v) { return fmt(static_cast<double>(v)); }
template<class T> typename std::enable_if<std::is_integral<T>::value, std::string>::type fmt(T v) {
    return std::to_string(v);
}
template<class T> std::string fmt(std::complex<T> const &c) { return "[" + fmt(c.real()) + "," + fmt(c.imag()) + "]"; }
template<class A, class B> std::string fmt_pair(std::pair<A, B> const &p) { return fmt(p.first) + "," + fmt(p.second); }
template<class A, class B> std::string fmt(std::pair<A, B> const &p) { return "[" + fmt_pair(p) + "]"; }
template<class R> std::string fmt_range(R const &r) {
    std::string s = "["; bool first = true;
    for (auto i = std::begin(r); i != std::end(r); ++i) { if (!first) s += ","; first = false; s += fmt(*i); }
    return s + "]";
}
template<class R> std::string fmt_pairs(R const &r) {
    std::string s = "["; bool first = true;
    for (auto i = std::begin(r); i != std::end(r); ++i) { if (!first) s += ","; first = false; s += fmt_pair(*i); }
    return s + "]";
}
template<class T> std::string fmt(std::vector<T> const &v) { return fmt_range(v); }
template<class T> std::string fmt(std::valarray<T> const &v) { return fmt_range(std::vector<T>(std::begin(v), std::end(v))); }

// ---- objects ---------------------------------------------------------------------------------
struct Obj {
    virtual ~Obj() {}
    virtual void push(Args const &) = 0;
    virtual std::string read(std::string const &, Args const &) = 0;
    virtual void drop(std::string const &) = 0;
    virtual std::unique_ptr<Obj> clone() const = 0;
    virtual void assign(Obj const &) = 0;
    virtual std::unique_ptr<Obj> persist(std::string const &) const = 0;
    virtual void persist_into(Obj &, std::string const &) const = 0;    // into a set that has a history of its own
};

template<class A> struct Kind {
    std::function<A *(Args const &)> make;
    std::function<void(A &, Args const &)> push;
    std::map<std::string, std::function<std::string(A &, Args const &)> > rd;
    std::map<std::string, std::function<void(A &)> > dr;
    void (*xfer)(A const &, A &, std::string const &) = nullptr;   // save one, load into the other
    void (*asg)(A &, A const &) = nullptr;
};

template<class A> struct ObjT : Obj {
    std::shared_ptr<Kind<A> > k;
    Args params;
    std::unique_ptr<A> a;
    void push(Args const &e) override { k->push(*a, e); }
    std::string read(std::string const &f, Args const &e) override {
        auto i = k->rd.find(f);
        if (i == k->rd.end()) throw bad_op("no feature " + f);
        return i->second(*a, e);
    }
    void drop(std::string const &f) override {
        auto i = k->dr.find(f);
        if (i == k->dr.end()) throw bad_op("no drop " + f);
        i->second(*a);
    }
    std::unique_ptr<Obj> clone() const override {
        std::unique_ptr<ObjT> o(new ObjT);
        o->k = k; o->params = params; o->a.reset(new A(*a));
        return o;
    }
    void assign(Obj const &from) override {
        if (!k->asg) throw bad_op("no assign");
        k->asg(*a, *dynamic_cast<ObjT const &>(from).a);
    }
    std::unique_ptr<Obj> persist(std::string const &fmt) const override {
        if (!k->xfer) throw bad_op("no persist");
        std::unique_ptr<ObjT> o(new ObjT);
        o->k = k; o->params = params; o->a.reset(k->make(params));
        k->xfer(*a, *o->a, fmt);
        return o;
    }
    void persist_into(Obj &to, std::string const &fmt) const override {
        if (!k->xfer) throw bad_op("no persist");
        ObjT &o = dynamic_cast<ObjT &>(to);
        k->xfer(*a, *o.a, fmt);
        o.params = params;
    }
};

typedef std::function<std::unique_ptr<Obj>(Args const &)> Maker;
inline std::map<std::string, Maker> &registry() { static std::map<std::string, Maker> r; return r; }

template<class A> std::shared_ptr<Kind<A> > kind(std::string const &name) {
    auto k = std::make_shared<Kind<A> >();
    k->asg = [](A &x, A const &y) { x = y; };
    registry()[name] = [k](Args const &p) -> std::unique_ptr<Obj> {
        std::unique_ptr<ObjT<A> > o(new ObjT<A>);
        o->k = k; o->params = p; o->a.reset(k->make(p));
        return o;
    };
    return k;
}
template<class A> std::shared_ptr<Kind<A> > kind_noassign(std::string const &name) {
    auto k = std::make_shared<Kind<A> >();
    registry()[name] = [k](Args const &p) -> std::unique_ptr<Obj> {
        std::unique_ptr<ObjT<A> > o(new ObjT<A>);
        o->k = k; o->params = p; o->a.reset(k->make(p));
        return o;
    };
    return k;
}

struct Registrar { explicit Registrar(void (*f)()) { f(); } };
// special operations a translation unit may add ("call NAME ...")
typedef std::function<std::string(std::map<std::string, std::unique_ptr<Obj> > &, Args const &)> Call;
inline std::map<std::string, Call> &calls() { static std::map<std::string, Call> c; return c; }

} // namespace vf
#endif
