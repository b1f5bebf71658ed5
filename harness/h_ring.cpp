// Scenario interpreter for RingBufferGuarded.
// cfg: cap, prime (0/1), type (int, u8, i64, dbl, ptr, cptr, vptr)
// ops: put:V get prime:V[:g] (g: its function waits at a gate) abort flush destroy count
#include "common.h"
#include "RingBufferGuarded.hpp"
using namespace ReiserRT::Core;
template <class T> struct Conv { static T to(long v) { return (T)v; } static long from(T v) { return (long)v; } };
template <class T> struct Conv<T *> {
    static T *to(long v) { return (T *)(uintptr_t)(0x10000 + v * 8); }
    static long from(T *p) { uintptr_t u = (uintptr_t)p; return (u < 0x10000 || u % 8) ? -1 : (long)((u - 0x10000) / 8); }
};
template <> struct Conv<double> { static double to(long v) { return v + 0.5; } static long from(double d) { return d == (long)d + 0.5 ? (long)d : -1; } };
struct Obj { long a; };
template <class T> T unconst(T v) { return v; }
template <class T> T *unconst(const T *v) { return const_cast<T *>(v); }
// put may report whether the value was stored
template <class R, class T> auto doPut(R &r, T v, int) -> typename std::enable_if<std::is_same<decltype(r.put(v)), bool>::value, const char *>::type { return r.put(v) ? "ok" : "dropped"; }
template <class R, class T> const char *doPut(R &r, T v, ...) { r.put(v); return "ok"; }
template <class R, class T> struct PutsBool { static constexpr bool value = std::is_same<decltype(std::declval<R &>().put(std::declval<T>())), bool>::value; };

template <class T> void go(const Script &sc)
{
    using R = RingBufferGuarded<T>;
    unsigned long long cap = sc.unum("cap", 2);
    int prime = (int)sc.num("prime", 0);
    vs_log("init %llu %d %d %d", cap, prime, (int)PutsBool<R, T>::value, (int)sc.thr.size() - 1);
    R *r = prime ? new R(cap, true) : sc.num("explicit", 0) ? new R(cap, false) : new R(cap);
    auto run = [&](int t, const Op &o) {
        const std::string &n = o.name;
        std::string res = "ok";
        long val = 0;
        vs_point();
        vs_log("call %d %s %ld", t, n.c_str(), (long)o.a(0));
        vs_op(n.c_str());
        try {
            if (n == "put") res = doPut(*r, Conv<T>::to(o.a(0)), 0);
            else if (n == "get") val = Conv<T>::from(r->get());
            else if (n == "prime") {
                long basev = o.a(0);
                bool gated = o.s(1) == "g";
                r->prime([t, basev, gated](size_t i) { vs_point(); vs_log("pc %d %ld", t, (long)i); if (gated) vs_gate(); else vs_point(); return unconst(Conv<T>::to(basev + (long)i)); });
            }
            else if (n == "flush") r->flush([t](auto v) { vs_log("fc %d %ld", t, Conv<T>::from((T)v)); });
            else if (n == "abort") r->abort();
            else if (n == "destroy") { delete r; r = nullptr; }
            else if (n == "sizes") { val = (long)r->getSize(); }
            else { vs_log("harness-unknown-op %s", n.c_str()); vs_finish(); }
        }
        catch (const SemaphoreAborted &) { res = "aborted"; }
        catch (const RingBufferStateError &) { res = "stateerr"; }
        catch (const RingBufferUnderflow &) { res = "underflow"; }
        catch (const RingBufferOverflow &) { res = "overflow"; }
        catch (const std::bad_function_call &) { res = "badfn"; }
        catch (...) { res = "otherexn"; }
        vs_op(nullptr);
        vs_log("ret %d %s %ld", t, res.c_str(), val);
    };
    Runner<decltype(run)> rr(sc, run);
    vs_log("end %d", vs_heap_check());
}
void scenario(const char *txt)
{
    Script sc(txt);
    std::string ty = sc.str("type", "int");
    if (ty == "int") go<int>(sc);
    else if (ty == "u8") go<unsigned char>(sc);
    else if (ty == "i64") go<long long>(sc);
    else if (ty == "u16") go<unsigned short>(sc);
    else if (ty == "dbl") go<double>(sc);
    else if (ty == "vptr") go<void *>(sc);
    else if (ty == "ptr") go<Obj *>(sc);
    else if (ty == "cptr") go<const Obj *>(sc);
    else vs_log("harness-unknown-type");
}
