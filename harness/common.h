// Shared by the scenario interpreters: a script is  "<key=val ...> | <main ops> | <thread 1 ops> | <thread 2 ops> ..."
#pragma once
#include "vsched.h"
#include <string>
#include <vector>
#include <map>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include <functional>
#include <typeinfo>

struct Script {
    std::map<std::string, std::string> cfg;
    std::vector<std::vector<std::string>> thr;   // 0: main
    static std::vector<std::string> words(const std::string &s)
    {
        std::vector<std::string> r; std::string w;
        for (char c : s) { if (c == ' ') { if (!w.empty()) r.push_back(w); w.clear(); } else w += c; }
        if (!w.empty()) r.push_back(w);
        return r;
    }
    explicit Script(const char *t)
    {
        std::vector<std::string> parts; std::string cur;
        for (const char *p = t; *p; ++p) { if (*p == '|') { parts.push_back(cur); cur.clear(); } else cur += *p; }
        parts.push_back(cur);
        for (auto &w : words(parts[0])) { auto e = w.find('='); if (e != std::string::npos) cfg[w.substr(0, e)] = w.substr(e + 1); else cfg[w] = "1"; }
        for (size_t i = 1; i < parts.size(); ++i) thr.push_back(words(parts[i]));
        if (thr.empty()) thr.emplace_back();
    }
    long long num(const char *k, long long d) const { auto i = cfg.find(k); return i == cfg.end() ? d : std::strtoll(i->second.c_str(), nullptr, 0); }
    unsigned long long unum(const char *k, unsigned long long d) const { auto i = cfg.find(k); return i == cfg.end() ? d : std::strtoull(i->second.c_str(), nullptr, 0); }
    std::string str(const char *k, const char *d) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
};

// "name:arg" or "name:a:b"
struct Op {
    std::string name; std::vector<std::string> arg;
    explicit Op(const std::string &w)
    {
        std::string c; bool first = true;
        auto fl = [&]() { if (first) name = c; else arg.push_back(c); first = false; c.clear(); };
        for (char x : w) { if (x == ':') fl(); else c += x; }
        fl();
    }
    long long a(size_t i, long long d = 0) const { return i < arg.size() ? std::strtoll(arg[i].c_str(), nullptr, 0) : d; }
    std::string s(size_t i, const char *d = "") const { return i < arg.size() ? arg[i] : std::string(d); }
};

// the exception user code (functors, constructors, dispatch ...) throws; "unchanged" means the same value arrives
struct UserError { int who; };

template <class RunOp> struct Runner {
    const Script &s; RunOp &f;
    struct A { Runner *r; int i; };
    std::vector<A> args;
    static void thr(void *p) { A *a = (A *)p; a->r->go(a->i); }
    void go(int i)
    {
        for (auto &w : s.thr[i]) {
            Op o(w);
            if (o.name == "W") vs_wait_quiescent();
            else if (o.name == "Y") vs_point();
            else if (o.name == "G") vs_gate();
            else if (o.name == "goo") vs_gate_open((int)o.a(0));
            else if (o.name == "go") { vs_gate_open((int)o.a(0)); vs_wait_quiescent(); }
            else f(i, o);
        }
    }
    Runner(const Script &sc, RunOp &fn) : s(sc), f(fn)
    {
        vs_opt("spur", sc.num("spur", 0));
        vs_opt("casf", sc.num("casf", 0));
        if (sc.cfg.count("steps")) vs_opt("steps", sc.num("steps", 30000));
        args.resize(s.thr.size());
        for (size_t i = 1; i < s.thr.size(); ++i) { args[i] = A{this, (int)i}; vs_spawn(thr, &args[i]); }
        go(0);
    }
};
