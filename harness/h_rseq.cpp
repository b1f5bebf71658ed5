// Sequential use of RingBufferSimple and RingBufferGuarded with any size, run-length coded.
// Values put are tickets 0,1,2,... modulo M; a run of gets that returned consecutive tickets is one event.
// cfg: ring=simple|guarded, size (requested), type
// ops: p:K g:K fill drain (until the exception) cyc:K (K times one put, one get) abort flush prime
#include "common.h"
#include "RingBufferGuarded.hpp"
#include "RingBufferSimple.hpp"
#include <limits>
using namespace ReiserRT::Core;
static const long WIDE = 1L << 30;
enum class En : short { zero };
struct Obj { double a; };
template <class T> struct Conv {
    static constexpr long M = sizeof(T) == 1 ? 256 : sizeof(T) == 2 ? 65536 : WIDE;
    static T to(long v) { return (T)(v % M); }
    static long from(T v) { long x = (long)v; if (sizeof(T) <= 2) x &= M - 1; return x; }
};
template <> struct Conv<bool> { static constexpr long M = 2; static bool to(long v) { return v & 1; } static long from(bool b) { return b; } };
template <> struct Conv<double> { static constexpr long M = WIDE; static double to(long v) { return v % M + 0.25; } static long from(double d) { return d == (long)d + 0.25 ? (long)d : -1; } };
template <> struct Conv<float> { static constexpr long M = 1L << 20; static float to(long v) { return (float)(v % M) + 0.25f; } static long from(float d) { return d == (long)d + 0.25f ? (long)d : -1; } };
template <class T> struct Conv<T *> {
    static constexpr long M = WIDE;
    static T *to(long v) { return (T *)(uintptr_t)(0x100000 + (v % M) * 8); }
    static long from(T *p) { uintptr_t u = (uintptr_t)p; return (u < 0x100000 || u % 8) ? -1 : (long)((u - 0x100000) / 8); }
};
static long clip(unsigned long long v) { return v > 1000000000ULL ? 1000000000 : (long)v; }
template <class R> auto sizes(R &r, int) -> decltype(r.getSize(), void()) { vs_log("sz %ld %ld %ld", clip(r.getSize()), clip(r.getMask()), clip(r.getNumBits())); }
template <class R> void sizes(R &, long) {}

template <class T, class R> struct Seq {
    R &r; bool guarded;
    long ticket = 0;           // next value to put
    const char *in = "other";  // operation in progress
    char kind = 0; long runN = 0, runFirst = 0, runNext = 0; std::string runRes;
    void flushRun()
    {
        if (runN) { if (kind == 'p') vs_log("P %ld %ld %s", runN, runFirst, runRes.c_str()); else vs_log("G %ld %ld %s", runN, runFirst, runRes.c_str()); }
        runN = 0; kind = 0;
    }
    void thru(long k, long b);
    void note(char k, long v, const std::string &res)
    {
        if (kind == k && runRes == res && (res != "ok" || v == runNext)) { runN++; runNext = (v + 1) % Conv<T>::M; return; }
        flushRun();
        kind = k; runN = 1; runFirst = v; runNext = (v + 1) % Conv<T>::M; runRes = res;
    }
    bool put()
    {
        std::string res = "ok"; long v = ticket % Conv<T>::M;
        vs_op("put"); in = "put";
        try { r.put(Conv<T>::to(ticket)); ++ticket; }
        catch (const RingBufferOverflow &) { res = "over"; } catch (const RingBufferUnderflow &) { res = "under"; }
        catch (const RingBufferStateError &) { res = "state"; } catch (const SemaphoreAborted &) { res = "aborted"; }
        catch (...) { res = "otherexn"; }
        vs_op(nullptr); in = "other";
        note('p', res == "ok" ? v : 0, res);
        return res == "ok";
    }
    bool get()
    {
        std::string res = "ok"; long v = 0;
        vs_op("get"); in = "get";
        try { v = Conv<T>::from(r.get()); }
        catch (const RingBufferOverflow &) { res = "over"; } catch (const RingBufferUnderflow &) { res = "under"; }
        catch (const RingBufferStateError &) { res = "state"; } catch (const SemaphoreAborted &) { res = "aborted"; }
        catch (...) { res = "otherexn"; }
        vs_op(nullptr); in = "other";
        note('g', v, res);
        return res == "ok";
    }
};
template <class T, class R> void Seq<T, R>::thru(long k, long b)
{
    flushRun();
    constexpr long M = Conv<T>::M;
    long done = 0, first = ticket % M;
    auto emit = [&]() { if (done) vs_log("C %ld %ld %ld", done, b, first); done = 0; first = ticket % M; };
    auto named = [](auto &&f) -> const char * {
        try { f(); return "ok"; }
        catch (const RingBufferOverflow &) { return "over"; } catch (const RingBufferUnderflow &) { return "under"; }
        catch (const RingBufferStateError &) { return "state"; } catch (const SemaphoreAborted &) { return "aborted"; }
        catch (...) { return "otherexn"; }
    };
    for (long i = 0; i < k; ++i) {
        long t0 = ticket;
        in = "put";
        for (long j = 0; j < b; ++j) {
            const char *res = named([&]() { r.put(Conv<T>::to(ticket)); ++ticket; });
            if (*res != 'o' || res[1] != 'k') { emit(); for (long x = 0; x < j; ++x) note('p', (t0 + x) % M, "ok"); note('p', 0, res); return; }
        }
        in = "get";
        for (long j = 0; j < b; ++j) {
            long v = 0;
            const char *res = named([&]() { v = Conv<T>::from(r.get()); });
            if (*res != 'o' || res[1] != 'k' || v != (t0 + j) % M) {
                emit();
                for (long x = 0; x < b; ++x) note('p', (t0 + x) % M, "ok");
                for (long x = 0; x < j; ++x) note('g', (t0 + x) % M, "ok");
                note('g', v, res); return;
            }
        }
        in = "other";
        if (++done * b >= (1L << 29)) emit();
    }
    emit();
}
template <class T> T unconst(T v) { return v; }
template <class T> T *unconst(const T *v) { return const_cast<T *>(v); }
template <class S> bool life(S &s, const Op &o, std::true_type)
{
    if (o.name == "abort") { s.flushRun(); s.r.abort(); vs_log("abort"); return true; }
    if (o.name == "prime") {
        s.flushRun(); std::string res = "ok"; long n = 0, bad = 0;
        try { s.r.prime([&](size_t i) { if ((long)i != n) bad++; ++n; return unconst(S::C::to(s.ticket++)); }); }
        catch (const RingBufferStateError &) { res = "state"; } catch (...) { res = "otherexn"; }
        vs_log("prime %ld %ld %s", n, bad, res.c_str()); return true;
    }
    if (o.name == "flush") {
        s.flushRun();
        long n = 0, first = 0, next = 0, bad = 0; std::string res = "ok";
        try { s.r.flush([&](auto v) { long x = S::C::from((typename S::E)v); if (n == 0) first = x; else if (x != next) bad++; next = (x + 1) % S::C::M; ++n; }); }
        catch (const RingBufferStateError &) { res = "state"; } catch (const RingBufferUnderflow &) { res = "under"; } catch (...) { res = "otherexn"; }
        vs_log("flush %ld %ld %ld %s", n, first, bad, res.c_str()); return true;
    }
    return false;
}
template <class S> bool life(S &, const Op &, std::false_type) { return false; }
template <class T, class R> struct SeqX : Seq<T, R> { using C = Conv<T>; using E = T; };

template <class T, class R, bool G> void go(const Script &sc)
{
    unsigned long long n = sc.unum("size", 2);
    bool prime = sc.num("prime", 0);
    vs_log("init %s %ld %d %ld", G ? "guarded" : "simple", clip(n), prime, Conv<T>::M);
    R *r;
    if constexpr (G) r = prime ? new R(n, true) : new R(n); else r = new R(n);
    sizes(*r, 0);
    SeqX<T, R> s{{*r, G}};
    auto run = [&](int, const Op &o) {
        long k = o.a(0, 1);
        if (o.name == "p") { for (long i = 0; i < k; ++i) s.put(); }
        else if (o.name == "g") { for (long i = 0; i < k; ++i) s.get(); }
        else if (o.name == "fill") { for (long i = 0; i < (1L << 20) + 3 && s.put(); ++i) {} }
        else if (o.name == "thru") s.thru(k, o.a(1, 1));
        else if (o.name == "drain") { for (long i = 0; i < (1L << 21) + 3 && s.get(); ++i) {} }
        else if (o.name == "cyc") { for (long i = 0; i < k; ++i) { s.put(); s.get(); } }
        else if (life(s, o, std::integral_constant<bool, G>())) {}
        else { vs_log("harness-unknown-op %s", o.name.c_str()); vs_finish(); }
    };
    // sequential: one thread that is not the main thread, so that a blocked one is noticed
    struct Ctx { decltype(run) *f; const Script *s; SeqX<T, R> *q; } c{&run, &sc, &s};
    vs_opt("steps", 40000000);
    vs_spawn([](void *p) { auto c = (Ctx *)p; for (auto &w : c->s->thr[0]) (*c->f)(0, Op(w)); c->q->flushRun(); }, &c);
    int stuck = vs_wait_quiescent();
    if (stuck) { s.flushRun(); vs_log("stuck %s", s.in); }
    vs_log("end %d %d", vs_heap_check(), stuck);
    if (!stuck) { delete r; vs_log("gone %d", vs_heap_check()); }
}
void scenario(const char *txt)
{
    Script sc(txt);
    std::string ty = sc.str("type", "int");
    bool g = sc.str("ring", "simple") == "guarded";
#define TY(name, T) if (ty == name) { if (g) go<T, RingBufferGuarded<T>, true>(sc); else go<T, RingBufferSimple<T>, false>(sc); return; }
    TY("int", int) TY("u8", unsigned char) TY("u16", unsigned short) TY("i64", long long) TY("dbl", double) TY("flt", float)
    TY("vptr", void *) TY("ptr", Obj *) TY("cptr", const Obj *) TY("enum", En) TY("bool", bool)
    vs_log("harness-unknown-type");
}
