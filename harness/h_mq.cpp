// Scenario interpreter for MessageQueue.
// cfg: size (number of messages)  max (maximum message size)  lock=1 (dispatch locking enabled)
// ops: e:TYPE[:FLAGS[:BODY]] emplace, p:... put    FLAGS: c constructor throws, d dispatch throws, n name throws, k constructor waits at a gate, g dispatch waits at a gate, - none
//                                                  BODY (done while being dispatched): st nm ab p e g y
//      g[:W[:BODY]] get and dispatch    W: 0 plain, 1 wakeup functor (which does BODY), 2 it throws, 3 it is empty, 4 it waits at a gate
//      st nm purge abort destroy   (statistics, last dispatched name)
//      lk:S[:Q] rl:S ul:S dl:S mc:S:D ma:S:D   locks of this thread: get into S (of queue Q), lock again, unlock, destroy, move S to D
#include "common.h"
static int within[64];                   // > 0: inside a dispatch or wakeup functor
#define WHO (vs_self() + (within[vs_self()] ? 10 : 0))
#include "objs.h"
#include "MessageQueue.hpp"
#include "Semaphore.hpp"
#include "RingBufferGuarded.hpp"
#include <memory>
#include <optional>
#include <new>
using namespace ReiserRT::Core;

static MessageQueue *Q[2];
static int expected[64];                 // whose exception is on its way, by thread
static int opCount[64];
QUIET static int newId(int t) { return 20 * (++opCount[t]) + t; }
static const int VIRT = 10;              // operations done inside dispatch or wakeup are those of thread t + VIRT
static void nested(const char *what);

struct Arg { int id, type, flags; const char *body; bool tmp; };
enum { F_C = 1, F_D = 2, F_N = 4, F_K = 8, F_G = 16 };
static const char *nameFor(int id) { static char names[4096][8]; static_assert(sizeof names > 0, ""); if (id < 0 || id >= 4096) return "?"; if (!names[id][0]) snprintf(names[id], 8, "m%d", id); return names[id]; }

struct Core : MessageBase {
    Arg a; unsigned char mark, bad, st; Bytes<9> p;
    static Arg check(Arg a) { vs_point(); if ((a.flags & F_K) && !a.tmp) vs_gate(); if ((a.flags & F_C) && !a.tmp) { vs_log("cx %d %d", WHO, a.id); throw UserError{a.id}; } return a; }
    static Arg moved(const Arg &o) { Arg a = o; a.tmp = false; return a; }
    explicit Core(Arg x) : a{x}, mark{0}, bad{0}, st{stampOf(x.id)} { vs_point(); p.set(st); }
    Core(Core &&o) : MessageBase(o), a{moved(o.a)}, mark{0}, bad{0}, st{o.st}, p(o.p) { vs_point(); o.a.tmp = true; }
    virtual bool intact() const { return p.ok(st) && st == stampOf(a.id); }
    void part(int type, bool good) { if (!mark) mark = type; if (!good) bad = 1; }
    template <class T> void hello(T *self, int type, int good = 1) { if (!a.tmp) born(this, self, sizeof(T), a.id, type, good); }
    ~Core() override { if (a.tmp) return; vs_point(); if (!p.ok(st)) bad = 1; died(this, mark, !bad); }
    void dispatch() override
    {
        vs_log("db %d %d %d", WHO, a.id, intact());
        vs_point();
        if (a.body) nested(a.body);
        vs_point();
        if (a.flags & F_G) vs_gate();
        bool thr = a.flags & F_D;
        vs_log("de %d %d %d %d", WHO, a.id, intact(), thr);
        if (thr) { expected[vs_self()] = a.id; throw UserError{a.id}; }
    }
    const char *name() const override
    {
        vs_point();
        if (a.flags & F_N) { vs_log("nx %d %d", WHO, a.id); expected[vs_self()] = a.id; throw UserError{a.id}; }
        return nameFor(a.id);
    }
};
#define PARTS(M, T, N) \
    Bytes<N> q; \
    bool intact() const override { return Core::intact() && q.ok(st); } \
    ~M() override { if (!a.tmp) { vs_point(); part(T, q.ok(st)); } }
struct M1 : Core { explicit M1(Arg x) : Core(check(x)) { q.set(st); hello(this, 1); } M1(M1 &&o) : Core((check(moved(o.a)), std::move(o))), q(o.q) { hello(this, 1); } PARTS(M1, 1, 3) };
struct M2 : Core { explicit M2(Arg x) : Core(check(x)) { q.set(st); hello(this, 2); } M2(M2 &&o) : Core((check(moved(o.a)), std::move(o))), q(o.q) { hello(this, 2); } PARTS(M2, 2, 40) };
struct Other { Bytes<16> po; unsigned char so; explicit Other(int id) : so{stampOf(id)} { po.set(so); } virtual ~Other() {} virtual void f() {} };
struct M3 : Other, Core {   // MessageBase is not the first base
    explicit M3(Arg x) : Other(x.id), Core(check(x)) { q.set(st); hello(this, 3); }
    M3(M3 &&o) : Other(o.a.id), Core((check(moved(o.a)), std::move(o))), q(o.q) { hello(this, 3); }
    Bytes<8> q;
    bool intact() const override { return Core::intact() && q.ok(st) && po.ok(st); }
    ~M3() override { if (!a.tmp) { vs_point(); part(3, q.ok(st) && po.ok(st)); } }
};
struct M4 : virtual Core { explicit M4(Arg x) : Core(check(x)) { q.set(st); hello(this, 4); } M4(M4 &&o) : Core((check(moved(o.a)), std::move(o))), q(o.q) { hello(this, 4); } PARTS(M4, 4, 8) };
struct M5 : Core {          // does not say its name
    explicit M5(Arg x) : Core(check(x)) { q.set(st); hello(this, 5); }
    M5(M5 &&o) : Core((check(moved(o.a)), std::move(o))), q(o.q) { hello(this, 5); }
    const char *name() const override { return MessageBase::name(); }
    PARTS(M5, 5, 8)
};
struct M6 : Core { explicit M6(Arg x) : Core(check(x)) { q.set(st); hello(this, 6); } M6(M6 &&o) : Core((check(moved(o.a)), std::move(o))), q(o.q) { hello(this, 6); } PARTS(M6, 6, 360) };
struct M7 : Core {          // can only be moved; takes arguments of several kinds
    std::unique_ptr<int> mo;
    M7(Arg x, std::unique_ptr<int> m, int &lv) : Core(check(x)), mo(std::move(m)) { q.set(st); lv = x.id; hello(this, 7, mo && *mo == x.id); }
    M7(M7 &&o) : Core((check(moved(o.a)), std::move(o))), mo(std::move(o.mo)), q(o.q) { hello(this, 7, mo && *mo == a.id); }
    Bytes<5> q;
    bool intact() const override { return Core::intact() && q.ok(st) && (a.tmp || (mo && *mo == a.id)); }
    ~M7() override { if (!a.tmp) { vs_point(); part(7, q.ok(st) && mo && *mo == a.id); } }
};
struct M8 : M2 {            // derives from another message
    explicit M8(Arg x) : M2(sub(x)) { r.set(st); a.tmp = x.tmp; a.flags = x.flags; hello(this, 8); }
    M8(M8 &&o) : M2(late(o)), r(o.r) { a.tmp = false; hello(this, 8); }
    static Arg sub(Arg x) { check(x); x.tmp = true; return x; }      // M2 keeps quiet
    static M2 &&late(M8 &o) { check(moved(o.a)); return std::move(o); }
    Bytes<24> r;
    bool intact() const override { return Core::intact() && q.ok(st) && r.ok(st); }
    ~M8() override { if (!a.tmp) { vs_point(); part(8, r.ok(st)); } }
};
// M8's move goes through M2's, which announces type 2 first; so M8 is only emplaced

static int sizeOf(int type)
{
    switch (type) { case 2: return sizeof(M2); case 3: return sizeof(M3); case 4: return sizeof(M4); case 5: return sizeof(M5); case 6: return sizeof(M6); case 7: return sizeof(M7); case 8: return sizeof(M8); default: return sizeof(M1); }
}
struct Locks {
    alignas(MessageQueue::AutoDispatchLock) unsigned char mem[10][sizeof(MessageQueue::AutoDispatchLock)]; bool on[10] = {};
    MessageQueue::AutoDispatchLock *at(int s) { return reinterpret_cast<MessageQueue::AutoDispatchLock *>(mem[s]); }
};
static Locks locks[32];

QUIET static const char *intern(const std::string &x) { return strdup(x.c_str()); }
struct Api {
    int t; const char *outer;
    std::string res = "ok";
    template <class F> void guard(F f)
    {
        res = "ok";
        try { f(); }
        catch (const MessageQueueElementSizeError &) { res = "sizeerr"; }
        catch (const MessageQueueDispatchLockingDisabled &) { res = "disabled"; }
        catch (const SemaphoreAborted &) { res = "aborted"; }
        catch (const RingBufferStateError &) { res = "stateerr"; }
        catch (const UserError &e) { res = e.who == expected[vs_self()] ? "exn" : "wrongexn"; }
        catch (const std::bad_function_call &) { res = "badfn"; }
        catch (...) { res = "otherexn"; }
    }
    void call(const char *k, int a = 0, int b = 0, int c = 0) { vs_point(); vs_log("call %d %s %d %d %d", t, k, a, b, c); vs_op(k); }
    void ret() { vs_op(outer); vs_log("ret %d %s", t, res.c_str()); }
    void put(bool emp, int type, const std::string &fl, const char *body)
    {
        int f = 0; for (char c : fl) f |= c == 'c' ? F_C : c == 'd' ? F_D : c == 'n' ? F_N : c == 'k' ? F_K : c == 'g' ? F_G : 0;
        int id = newId(t);
        Arg a{id, type, f, body, false};
        Arg tmp = a; tmp.tmp = true;
        call("put", id, type, sizeOf(type));
        expected[vs_self()] = id;
        MessageQueue &q = *Q[0];
        guard([&] {
            if (emp) switch (type) {
                case 2: q.emplace<M2>(a); break; case 3: q.emplace<M3>(a); break; case 4: q.emplace<M4>(a); break; case 5: q.emplace<M5>(a); break;
                case 6: q.emplace<M6>(a); break; case 8: q.emplace<M8>(a); break;
                case 7: { int lv = 0; q.emplace<M7>(a, std::make_unique<int>(id), lv); if (lv != id) vs_log("bad-argument"); break; }
                default: q.emplace<M1>(a);
            }
            else switch (type) {
                case 2: q.put(M2{tmp}); break; case 3: q.put(M3{tmp}); break; case 4: q.put(M4{tmp}); break; case 5: { M5 m{tmp}; q.put(std::move(m)); break; }
                case 6: q.put(M6{tmp}); break; case 8: q.emplace<M8>(a); break;
                case 7: { int lv = 0; q.put(M7{tmp, std::make_unique<int>(id), lv}); break; }
                default: q.put(M1{tmp});
            }
        });
        ret();
    }
    void get(int w, const char *body)
    {
        call("get", w == 4 ? 1 : w);
        guard([&] {
            if (w == 0) Q[0]->getAndDispatch();
            else if (w == 3) Q[0]->getAndDispatch(MessageQueue::WakeupCallFunctionType{});
            else {
                int calls = 0;
                MessageQueue::WakeupCallFunctionType f = [&calls, w, body]() {
                    ++calls;
                    vs_log("wk %d %d", WHO, w == 2);
                    vs_point();
                    if (body) nested(body);
                    if (w == 4) vs_gate();
                    if (w == 2) { expected[vs_self()] = -7; throw UserError{-7}; }
                };
                Q[0]->getAndDispatch(f);
            }
        });
        ret();
    }
    void stat()
    {
        call("stat");
        auto s = Q[0]->getRunningStateStatistics();
        vs_op(outer);
        auto cl = [](unsigned long long v) { return v > 1000000000ULL ? 1000000000L : (long)v; };
        vs_log("ret %d stat %ld %ld %ld", t, cl(s.size), cl(s.runningCount), cl(s.highWatermark));
    }
    void name()
    {
        call("name");
        const char *n = Q[0]->getNameOfLastMessageDispatched();
        vs_op(outer);
        int c = -3;
        if (n && !strcmp(n, "[NONE]")) c = -1; else if (n && !strcmp(n, "Unforgiven")) c = -2; else if (n && n[0] == 'm') c = atoi(n + 1);
        vs_log("ret %d name %d", t, c);
    }
    void abort() { call("abort"); guard([&] { Q[0]->abort(); }); ret(); }
    void op(const Op &o)
    {
        const std::string &n = o.name;
        Locks &l = locks[t];
        int s = (int)o.a(0), d = (int)o.a(1);
        if (n == "e" || n == "p") put(n == "e", (int)o.a(0), o.s(1, "-"), o.arg.size() > 2 ? intern(o.arg[2]) : nullptr);
        else if (n == "g") get((int)o.a(0), o.arg.size() > 1 ? intern(o.arg[1]) : nullptr);
        else if (n == "st") stat();
        else if (n == "nm") name();
        else if (n == "abort" || n == "ab") abort();
        else if (n == "purge") { call("purge"); guard([&] { Q[0]->purge(); }); ret(); }
        else if (n == "destroy") { call("destroy"); delete Q[0]; Q[0] = nullptr; ret(); }
        else if (n == "lk") { if (!l.on[s]) { call("lk", s + 1, d); guard([&] { new (l.mem[s]) MessageQueue::AutoDispatchLock(Q[d]->getAutoDispatchLock()); l.on[s] = true; }); ret(); } }
        else if (n == "rl") { if (l.on[s]) { call("rl", s + 1); guard([&] { l.at(s)->lock(); }); ret(); } }
        else if (n == "ul") { if (l.on[s]) { call("ul", s + 1); guard([&] { l.at(s)->unlock(); }); ret(); } }
        else if (n == "dl") { if (l.on[s]) { call("dl", s + 1); l.at(s)->~AutoDispatchLock(); l.on[s] = false; ret(); } }
        else if (n == "mc") { if (l.on[s] && !l.on[d]) { call("mc", s + 1, d + 1); guard([&] { new (l.mem[d]) MessageQueue::AutoDispatchLock(std::move(*l.at(s))); l.on[d] = true; }); ret(); } }
        else if (n == "ma") { if (l.on[s] && l.on[d]) { call("ma", s + 1, d + 1); guard([&] { *l.at(d) = std::move(*l.at(s)); }); ret(); } }
        else if (n == "xl") { for (int i = 0; i < 10; ++i) if (l.on[i]) { call("dl", i + 1); l.at(i)->~AutoDispatchLock(); l.on[i] = false; ret(); } }
        else if (n == "y") vs_point();
        else { vs_log("harness-unknown-op %s", n.c_str()); vs_finish(); }
    }
};
// what a message or a wakeup functor does; '+' separates operations, '.' stands for ':'
static void nested(const char *what)
{
    int self = vs_self();
    int ex = expected[self];
    ++within[self];
    std::string c;
    for (const char *p = what;; ++p) {
        if (*p == '+' || !*p) { Api a{self + VIRT, "dispatching"}; a.op(Op(c)); c.clear(); if (!*p) break; }
        else c += *p == '.' ? ':' : *p;
    }
    --within[self];
    expected[self] = ex;
}
void scenario(const char *txt)
{
    Script sc(txt);
    Q[0] = new MessageQueue(sc.unum("size", 2), sc.unum("max", 64), sc.num("lock", 0));
    if (sc.num("q2", 0)) Q[1] = new MessageQueue(1, 64, true);
    bool virt = false, lk = false, st = false;
    for (auto &p : sc.thr) for (auto &w : p) {
        Op o(w);
        if (o.name == "lk") lk = true;
        if (w.find("st") != std::string::npos) st = true;
        if (((o.name == "e" || o.name == "p") && o.arg.size() > 2) || (o.name == "g" && o.arg.size() > 1)) virt = true;
    }
    vs_log("init %ld %ld %d %d %d %d %d", (long)sc.num("size", 2), (long)sc.num("max", 64), (int)sc.num("lock", 0), (int)sc.thr.size() - 1, virt, lk ? 4 : 0, st);
    auto f = [](int t, const Op &o) { Api a{t, nullptr}; a.op(o); };
    Runner<decltype(f)> r(sc, f);
    if (Q[0]) { vs_log("end %d", vs_heap_check()); return; }
    delete Q[1];
    vs_log("gone");
    vs_log("end %d", vs_heap_check());
}
