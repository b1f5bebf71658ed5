// Scenario interpreter for ObjectPool and BlockPool.
// cfg: kind=obj|plain|blk  size (requested)  min (minTypeAllocSize, obj/plain)  n (bytes of plain / of a block's element)
//      epb (elements per block)  type (blk: u8 u16 int i64 dbl ptr cls tcls vcls)
// thr = T + 1000 G + 1000000 D: constructing element T throws, constructing element G and destroying element D wait at a gate (elements from 1, objects are element 1)
// ops: n:TYPE:slot[:thr] b:slot[:thr] d:slot[:mode] s:slot c:slot:slot2 m:slot:slot2 k:slot r:slot:TYPE st fill:TYPE:slot drain:a:b
#include "common.h"
#include "objs.h"
#include "ObjectPool.hpp"
#include "BlockPool.hpp"
#include "RingBufferSimple.hpp"
#include <atomic>
#include <memory>
#include <variant>
using namespace ReiserRT::Core;

struct Arg { int id, type, thr; };
static int gateAt[8192];      // element (from 1) whose destruction waits, by object or block
QUIET static void dying(int id, int n) { if (id >= 0 && id < 8192 && gateAt[id] == n) { gateAt[id] = 0; vs_gate(); } }
QUIET static bool constructing(int id, int thr, int n)      // does it throw?
{
    if (id >= 0 && id < 8192) gateAt[id] = thr / 1000000;
    if (thr / 1000 % 1000 == n) vs_gate();
    return thr % 1000 == n;
}
// ---- the polymorphic family
struct Base {
    int id; unsigned char mark, bad, st; Bytes<9> p;
    explicit Base(Arg a) : id{a.id}, mark{0}, bad{0}, st{stampOf(a.id)} { vs_point(); p.set(st); if (a.type == 0) { born(this, this, sizeof(Base), a.id, 0, 1); } }
    virtual bool intact() const { return p.ok(st); }
    void part(int type, bool good) { if (!mark) mark = type; if (!good) bad = 1; }
    virtual ~Base() { vs_point(); dying(id, 1); if (!p.ok(st)) bad = 1; died(this, mark, !bad); }
};
struct D1 : Base {
    Bytes<8> p1;
    D1(Arg a) : Base(a) { p1.set(st); vs_point(); if (a.type == 1) born(static_cast<Base *>(this), this, sizeof(D1), a.id, 1, 1); }
    bool intact() const override { return Base::intact() && p1.ok(st); }
    ~D1() override { vs_point(); part(1, p1.ok(st)); }
};
// arguments are forwarded as they were given
struct D2 : Base {
    Bytes<40> p2;
    D2(Arg a, std::unique_ptr<int> mo, int &lv) : Base(a)
    {
        p2.set(st); vs_point();
        int good = mo && *mo == a.id; lv = a.id;
        born(static_cast<Base *>(this), this, sizeof(D2), a.id, 2, good);
    }
    bool intact() const override { return Base::intact() && p2.ok(st); }
    ~D2() override { vs_point(); part(2, p2.ok(st)); }
};
struct DX : D1 {
    Bytes<24> px;
    explicit DX(Arg a) : D1(check(a)) { px.set(st); }
    static Arg check(Arg a) { vs_point(); if (constructing(a.id, a.thr, 1)) { vs_log("cx %d %d", vs_self(), a.id); throw UserError{a.id}; } return a; }
    bool intact() const override { return D1::intact() && px.ok(st); }
    ~DX() override { vs_point(); part(3, px.ok(st)); }
};
struct Other { Bytes<16> po; unsigned char st; explicit Other(int id) : st{stampOf(id)} { po.set(st); } virtual ~Other() {} };
struct DM : Other, Base {
    Bytes<8> pm;
    explicit DM(Arg a) : Other(a.id), Base(a) { pm.set(Base::st); vs_point(); born(static_cast<Base *>(this), this, sizeof(DM), a.id, 4, 1); }
    bool intact() const override { return Base::intact() && po.ok(Base::st) && pm.ok(Base::st); }
    ~DM() override { vs_point(); part(4, pm.ok(Base::st) && po.ok(Base::st)); }
};
struct DV : virtual Base {
    Bytes<8> pv;
    explicit DV(Arg a) : Base(a) { pv.set(st); vs_point(); born(static_cast<Base *>(this), this, sizeof(DV), a.id, 5, 1); }
    bool intact() const override { return Base::intact() && pv.ok(st); }
    ~DV() override { vs_point(); part(5, pv.ok(st)); }
};
struct DB : Base {
    Bytes<360> pb;
    explicit DB(Arg a) : Base(a) { pb.set(st); vs_point(); born(static_cast<Base *>(this), this, sizeof(DB), a.id, 6, 1); }
    bool intact() const override { return Base::intact() && pb.ok(st); }
    ~DB() override { vs_point(); part(6, pb.ok(st)); }
};
// ---- plain objects of any size
template <size_t N> struct Plain {
    Bytes<N> p;
    Plain(Arg a) { vs_point(); if (constructing(a.id, a.thr, 1)) { vs_log("cx %d %d", vs_self(), a.id); throw UserError{a.id}; } p.set(stampOf(a.id)); born(this, this, N, a.id, 50, 1); }
    bool intact() const { return p.ok(stampOf(idOf(this))); }
    ~Plain() { vs_point(); dying(idOf(this), 1); died(this, 50, intact()); }
};
// ---- elements of blocks
struct Ctx { int blk, cnt, thr; };
static Ctx ctx[64];
QUIET static int nextElem(bool &thr) { Ctx &c = ctx[vs_self()]; thr = constructing(c.blk, c.thr, c.cnt + 1); return c.blk * 100 + c.cnt++; }
template <size_t N, bool NX> struct Elem {
    Bytes<N> p;
    Elem() noexcept(NX)
    {
        vs_point();
        bool thr; int id = nextElem(thr);
        if constexpr (!NX) if (thr) { vs_log("cx %d %d", vs_self(), id / 100); throw UserError{id / 100}; }
        p.set(stampOf(id)); born(this, this, N, id, 101, 1);
    }
    bool intact() const { return p.ok(stampOf(idOf(this))); }
    ~Elem() { vs_point(); { int i = idOf(this); dying(i / 100, i % 100 + 1); } died(this, 101, intact()); }
};
template <size_t N> struct VElem {
    int id; Bytes<N> p;
    VElem() { vs_point(); bool thr; id = nextElem(thr); if (thr) { vs_log("cx %d %d", vs_self(), id / 100); throw UserError{id / 100}; } p.set(stampOf(id)); born(this, this, sizeof *this, id, 101, 1); }
    bool intact() const { return p.ok(stampOf(id)); }
    virtual ~VElem() { vs_point(); dying(id / 100, id % 100 + 1); died(this, 101, intact()); }
};

static Script *SC;
static int opCount[64];
QUIET static int newId(int t) { return 10 * (++opCount[t]) + t; }       // at most 9 threads

// ---- a pool's user
template <class Pool, class UP, class SP, class Make, class Intact> struct User {
    Pool *pool; Make make; Intact intact;
    using Held = std::variant<UP, SP>;
    struct Holder { Held h; int id; };
    std::atomic<Holder *> slots[80];
    Holder *steal(long s) { return slots[s].exchange(nullptr); }
    void place(int t, long s, Holder *h) { if (Holder *old = slots[s].exchange(h)) drop(t, old, 1); }
    void check(int t, Holder *h)
    {
        bool ok = std::visit([&](auto &p) { return intact(p, h->id); }, h->h);
        vs_log("rd %d %d %d", t, h->id, ok);
    }
    static const char *name(int) { return ""; }
    Holder *create(int t, int type, int thr, std::string &res)
    {
        Holder *h = nullptr;
        int id = newId(t);
        vs_point();
        vs_log("call %d new %d %d %d", t, id, type, make.size(type));
        vs_op("new");
        res = "ok"; int got = -1; long num = 0, lo = 0, sz = 0; int zero = 1;
        try {
            UP p = make(pool, id, type, thr);
            vs_point();
            make.look(p, id, got, num, lo, sz, zero);
            h = new Holder{Held{std::move(p)}, id};
        }
        catch (const RingBufferUnderflow &) { res = "under"; }
        catch (const ObjectPoolElementSizeError &) { res = "sizeerr"; }
        catch (const UserError &e) { res = e.who == id ? "exn" : "wrongexn"; }
        catch (...) { res = "otherexn"; }
        vs_op(nullptr);
        vs_log("ret %d %s %d %ld %ld %ld %d", t, res.c_str(), got, num, lo, sz, zero);
        if (h) make.write(std::get<0>(h->h), id);
        return h;
    }
    void drop(int t, Holder *h, int mode)
    {
        check(t, h);
        int id = h->id;
        vs_point();
        vs_log("call %d drop %d 0 0", t, id);
        vs_op("drop");
        std::visit([&](auto &p) {
            using P = std::decay_t<decltype(p)>;
            if (mode == 0) p.reset();
            else if (mode == 2) p = nullptr;
            else if (mode == 3) { P q{std::move(p)}; vs_point(); }
            else if (mode == 4) { P q; q.swap(p); vs_point(); }
            else if (mode == 5) { P q; q = std::move(p); P r{std::move(q)}; vs_point(); r.reset(); }
        }, h->h);
        delete h;
        vs_op(nullptr);
        vs_log("ret %d ok %d 0 0 0 0", t, id);
    }
    void op(int t, const Op &o)
    {
        const std::string &n = o.name; std::string res;
        if (n == "n" || n == "b") {
            bool blk = n == "b"; long slot = blk ? o.a(0) : o.a(1);
            Holder *h = create(t, blk ? 101 : (int)o.a(0), (int)o.a(blk ? 1 : 2), res);
            if (h) { Holder *old = slots[slot].exchange(h); if (old) drop(t, old, 1); }
        }
        else if (n == "d") { if (Holder *h = steal(o.a(0))) drop(t, h, (int)o.a(1)); }
        else if (n == "k") { if (Holder *h = steal(o.a(0))) { check(t, h); place(t, o.a(0), h); } }
        else if (n == "s") {
            if (Holder *h = steal(o.a(0))) {
                if (auto *u = std::get_if<0>(&h->h)) { SP s{std::move(*u)}; h->h = std::move(s); }
                place(t, o.a(0), h);
            }
        }
        else if (n == "c") {
            if (Holder *h = steal(o.a(0))) {
                Holder *x = nullptr;
                if (auto *s = std::get_if<1>(&h->h)) { x = new Holder{Held{*s}, h->id}; vs_log("share %d %d", t, h->id); }
                place(t, o.a(0), h);
                if (x) { Holder *old = slots[o.a(1)].exchange(x); if (old) drop(t, old, 1); }
            }
        }
        else if (n == "m") { if (Holder *h = steal(o.a(0))) { Holder *old = slots[o.a(1)].exchange(new Holder{std::move(h->h), h->id}); delete h; if (old) drop(t, old, 1); } }
        else if (n == "r") {   // assign a new object over an old one
            Holder *h = steal(o.a(0));
            if (h && h->h.index() == 0) {
                Holder *x = create(t, (int)o.a(1), (int)o.a(2), res);
                if (x) {
                    check(t, h);
                    vs_point(); vs_log("call %d drop %d 0 0", t, h->id); vs_op("drop");
                    std::get<0>(h->h) = std::move(std::get<0>(x->h));
                    vs_op(nullptr); vs_log("ret %d ok %d 0 0 0 0", t, h->id);
                    h->id = x->id; delete x;
                }
            }
            if (h) place(t, o.a(0), h);
        }
        else if (n == "st") {
            vs_point();
            vs_log("call %d stat 0 0 0", t); vs_op("stat");
            auto s = pool->getRunningStateStatistics();
            vs_op(nullptr);
            auto cl = [](unsigned long long v) { return v > 1000000000ULL ? 1000000000L : (long)v; };
            vs_log("ret %d stat %ld %ld %ld 0 0", t, cl(s.size), cl(s.runningCount), cl(s.lowWatermark));
        }
        else if (n == "fill") { for (long i = o.a(1); i < 79; ++i) { Holder *h = create(t, (int)o.a(0), 0, res); if (!h) break; Holder *old = slots[i].exchange(h); if (old) drop(t, old, 1); } }
        else if (n == "drain") { for (long i = o.a(0, 0); i <= o.a(1, 79); ++i) if (Holder *h = steal(i)) drop(t, h, (int)(i % 6)); }
        else { vs_log("harness-unknown-op %s", n.c_str()); vs_finish(); }
    }
    void run(const Script &sc)
    {
        auto f = [this](int t, const Op &o) { op(t, o); };
        Runner<decltype(f)> r(sc, f);
        for (auto &s : slots) if (s.load()) { vs_log("end %d", vs_heap_check()); return; }
        vs_point();
        vs_log("gone");
        delete pool;
        vs_log("end %d", vs_heap_check());
    }
};
static long clip(unsigned long long v) { return v > 1000000000ULL ? 1000000000 : (long)v; }
template <class P> void hello(const Script &sc, P *p, size_t minalloc, size_t epb, int scal)
{
    vs_log("init %s %ld %ld %ld %d %d", sc.str("kind", "obj").c_str(), clip(sc.unum("size", 2)), (long)minalloc, (long)epb, scal, (int)sc.thr.size() - 1);
    vs_log("sz %ld", clip(p->getSize()));
}
// ---- objects
struct MakeObj {
    using Pool = ObjectPool<Base>; using UP = Pool::ObjectPtrType;
    int size(int type) { static const size_t s[] = {sizeof(Base), sizeof(D1), sizeof(D2), sizeof(DX), sizeof(DM), sizeof(DV), sizeof(DB)}; return type >= 0 && type < 7 ? (int)s[type] : 0; }
    UP operator()(Pool *p, int id, int type, int thr)
    {
        Arg a{id, type, thr};
        switch (type) {
        case 1: return p->createObj<D1>(a);
        case 2: { int lv = 0; auto u = p->createObj<D2>(a, std::make_unique<int>(id), lv); if (lv != id) vs_log("bad-argument"); return u; }
        case 3: { Arg b = a; b.type = 33; UP u; u = p->createObj<DXb>(b); return u; }
        case 4: return p->createObj<DM>(a);
        case 5: return p->createObj<DV>(a);
        case 6: return p->createObj<DB>(a);
        default: return p->createObj<Base>(a);
        }
    }
    // DX announces itself only once it is complete
    struct DXb : DX { explicit DXb(Arg a) : DX(a) { vs_point(); born(static_cast<Base *>(this), this, sizeof(DXb), a.id, 3, 1); } };
    void look(UP &p, int, int &got, long &num, long &, long &, int &) { got = idOf(p.get()); num = 1; }
    void write(UP &, int) {}
};
template <size_t N> struct MakePlain {
    using Pool = ObjectPool<Plain<N>>; using UP = typename Pool::ObjectPtrType;
    int size(int) { return N; }
    UP operator()(Pool *p, int id, int type, int thr) { return p->template createObj<Plain<N>>(Arg{id, type, thr}); }
    void look(UP &p, int, int &got, long &num, long &, long &, int &) { got = idOf(p.get()); num = 1; }
    void write(UP &, int) {}
};
struct IntactObj { template <class P> bool operator()(P &p, int) { return p->intact(); } };
// ---- blocks
template <class E> struct MakeBlk {
    using Pool = BlockPool<E>; using UP = typename Pool::BlockPtrType;
    size_t epb;
    int size(int) { return (int)(sizeof(E) * epb); }
    QUIET static void enter(int id, int thr) { ctx[vs_self()] = Ctx{id, 0, thr}; }
    UP operator()(Pool *p, int id, int, int thr) { enter(id, thr); return p->getBlock(); }
    void look(UP &p, int id, int &got, long &num, long &lo, long &sz, int &zero)
    {
        num = (long)p.get_deleter().getNumElements();
        if constexpr (std::is_scalar<E>::value) {
            got = p ? id : -1;
            sz = (long)(sizeof(E) * epb);
            lo = relAddr(p.get());
            for (size_t i = 0; i < epb; ++i) if (p[i] != E()) zero = 0;
            if ((uintptr_t)p.get() % sizeof(void *) || vs_in_heap(p.get(), sz) == 0) got = -2;
        } else { int e = p ? idOf(p.get()) : -1; got = e < 0 ? -1 : e / 100; lo = relAddr(p.get()); if ((uintptr_t)p.get() % sizeof(void *)) got = -2; }
    }
    void write(UP &p, int id) { if constexpr (std::is_scalar<E>::value) { auto *b = (unsigned char *)p.get(); for (size_t i = 0; i < sizeof(E) * epb; ++i) b[i] = stampOf(id); } }
};
template <class E> struct IntactBlk {
    size_t epb;
    template <class P> bool operator()(P &p, int id)
    {
        if constexpr (std::is_scalar<E>::value) { auto *b = (unsigned char *)p.get(); for (size_t i = 0; i < sizeof(E) * epb; ++i) if (b[i] != stampOf(id)) return false; return true; }
        else { for (size_t i = 0; i < epb; ++i) if (!p[i].intact()) return false; return true; }
    }
};
template <size_t N> void goPlain(const Script &sc)
{
    using M = MakePlain<N>;
    size_t mn = sc.unum("min", 0);
    typename M::Pool *p = sc.cfg.count("min") ? new typename M::Pool(sc.unum("size", 2), mn) : new typename M::Pool(sc.unum("size", 2));
    hello(sc, p, mn > N ? mn : N, 1, 0);
    auto *u = new User<typename M::Pool, typename M::UP, std::shared_ptr<Plain<N>>, M, IntactObj>{p, M{}, IntactObj{}, {}};
    u->run(sc);
}
template <class E> void goBlk(const Script &sc)
{
    using M = MakeBlk<E>;
    size_t epb = sc.unum("epb", 3);
    auto *p = new typename M::Pool(sc.unum("size", 2), epb);
    hello(sc, p, sizeof(E) * epb, epb, std::is_scalar<E>::value);
    auto *u = new User<typename M::Pool, typename M::UP, std::shared_ptr<E[]>, M, IntactBlk<E>>{p, M{epb}, IntactBlk<E>{epb}, {}};
    u->run(sc);
}
void scenario(const char *txt)
{
    Script sc(txt); SC = &sc;
    std::string k = sc.str("kind", "obj");
    long n = sc.num("n", 8);
    if (k == "obj") {
        size_t mn = sc.unum("min", 0);
        auto *p = sc.cfg.count("min") ? new ObjectPool<Base>(sc.unum("size", 2), mn) : new ObjectPool<Base>(sc.unum("size", 2));
        hello(sc, p, mn > sizeof(Base) ? mn : sizeof(Base), 1, 0);
        auto *u = new User<ObjectPool<Base>, MakeObj::UP, std::shared_ptr<Base>, MakeObj, IntactObj>{p, MakeObj{}, IntactObj{}, {}};
        u->run(sc);
    }
    else if (k == "plain") {
        switch (n) {
#define PL(x) case x: goPlain<x>(sc); return;
        PL(1) PL(2) PL(3) PL(4) PL(5) PL(6) PL(7) PL(8) PL(9) PL(10) PL(11) PL(12) PL(13) PL(15) PL(16) PL(17) PL(20) PL(23) PL(24) PL(25) PL(31) PL(33) PL(47) PL(100)
        default: vs_log("harness-unknown-size");
        }
    }
    else if (k == "blk") {
        std::string ty = sc.str("type", "int");
        if (ty == "u8") goBlk<unsigned char>(sc);
        else if (ty == "u16") goBlk<unsigned short>(sc);
        else if (ty == "int") goBlk<int>(sc);
        else if (ty == "i64") goBlk<long long>(sc);
        else if (ty == "dbl") goBlk<double>(sc);
        else if (ty == "ptr") goBlk<int *>(sc);
        else if (ty == "vcls") goBlk<VElem<12>>(sc);
        else if (ty == "cls") switch (n) {
#define CL(x) case x: goBlk<Elem<x, true>>(sc); return;
            CL(1) CL(3) CL(4) CL(7) CL(8) CL(12) CL(17)
            default: vs_log("harness-unknown-size");
        }
        else if (ty == "tcls") switch (n) {
#define TC(x) case x: goBlk<Elem<x, false>>(sc); return;
            TC(1) TC(3) TC(4) TC(7) TC(8) TC(12) TC(17)
            default: vs_log("harness-unknown-size");
        }
    }
}
