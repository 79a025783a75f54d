#include "common.hpp"
#include <unistd.h>
using namespace vf;

static void parse(std::istringstream &in, Args &a) {
    std::string t;
    while (in >> t) {
        std::size_t i = t.find('=');
        if (i == std::string::npos) throw bad_op("token " + t);
        a[t.substr(0, i)] = t.substr(i + 1);
    }
}

static std::string result(Obj &ob, std::string const &f, Args const &a) {
    try { return ob.read(f, a); }
    catch (std::runtime_error const &) { return "throw"; }
}

static std::string exec(std::map<std::string, std::unique_ptr<Obj> > &objs, std::string const &line) {
    std::istringstream in(line);
    std::string op, o, x;
    in >> op;
    Args a;
    if (op == "reset") { objs.clear(); return "ok"; }
    in >> o;
    if (op == "new") {
        in >> x; parse(in, a);
        auto k = registry().find(x);
        if (k == registry().end()) throw bad_op("no kind " + x);
        objs[o].reset();
        objs[o] = k->second(a);
        return "ok";
    }
    if (op == "call") {
        parse(in, a);
        auto c = calls().find(o);
        if (c == calls().end()) throw bad_op("no call " + o);
        return c->second(objs, a);
    }
    if (op == "copy" || op == "persist") {
        in >> x; parse(in, a);
        auto &src = objs.at(x);
        if (has(a, "into")) { src->persist_into(*objs.at(o), a.at("fmt")); return "ok"; }
        auto r = op == "copy" ? src->clone() : src->persist(a.at("fmt"));
        objs[o] = std::move(r);
        return "ok";
    }
    auto &ob = objs.at(o);
    if (op == "push") {
        parse(in, a);
        long n = has(a, "n") ? arg<long>(a, "n") : 1;
        for (long i = 0; i < n; ++i) ob->push(a);
        return "ok";
    }
    if (op == "read") { in >> x; parse(in, a); return ob->read(x, a); }
    if (op == "same") {
        std::string f; in >> x >> f; parse(in, a);
        std::string r1 = result(*ob, f, a);
        return r1 + "|" + result(*objs.at(x), f, a);
    }
    if (op == "drop") { in >> x; ob->drop(x); return "ok"; }
    if (op == "assign") { in >> x; ob->assign(*objs.at(x)); return "ok"; }
    if (op == "del") { objs.erase(o); return "ok"; }
    throw bad_op("op " + op);
}

int main() {
    std::ios::sync_with_stdio(false);
    std::map<std::string, std::unique_ptr<Obj> > objs;
    std::string line;
    while (std::getline(std::cin, line)) {
        std::string r;
        try { r = exec(objs, line); }
        catch (bad_op const &e) { r = std::string("err ") + e.what(); }
        catch (std::runtime_error const &) { r = "throw"; }
        catch (std::exception const &e) { r = std::string("exc ") + e.what(); }
        for (char &c : r) if (c == '\n') c = ' ';
        // one write per line, flushed, so that everything before a crash is recorded
        r += '\n';
        if (::write(1, r.data(), r.size()) < 0) return 3;
    }
    return 0;
}
