// Scenario interpreter for Semaphore.
// cfg: init, max (64-bit), base (counts are logged relative to it)
// ops (:g  the functor waits at a gate): take takef takex takee give givef givex givee abort count ; main: W (wait for quiescence), destroy
#include "common.h"
#include "Semaphore.hpp"
#include "ReiserRT_CoreExceptions.hpp"
using namespace ReiserRT::Core;
static unsigned long long base;
static long rel(unsigned long long v)
{
    __int128 d = (__int128)v - (__int128)base;
    if (d > 1000000000) d = 1000000000;
    if (d < -1000000000) d = -1000000000;
    return (long)d;
}
void scenario(const char *txt)
{
    Script sc(txt);
    base = sc.unum("base", 0);
    unsigned long long init = sc.unum("init", 0), max = sc.unum("max", 0);
    vs_log("init %ld %ld %d %ld %ld %d", rel(init), rel(max), max == 0, rel(4294967295ULL), rel(0), (int)sc.thr.size() - 1);
    Semaphore *sem = max == 0 && !sc.cfg.count("max") ? new Semaphore(init) : new Semaphore(init, max);
    auto run = [&](int t, const Op &o) {
        const std::string &n = o.name;
        std::string res = "ok";
        long cnt = 0;
        bool gated = o.s(0) == "g";        // the functor stays until let go
        vs_point();
        vs_log("call %d %s", t, n.c_str());
        vs_op(n.c_str());
        auto body = [&](bool thrw) { return std::function<void()>([t, thrw, gated]() {
            vs_point();
            vs_log("fb %d", t);
            if (gated) vs_gate(); else vs_point();
            vs_log("fe %d %d", t, thrw);
            if (thrw) throw UserError{t};
        }); };
        try {
            if (n == "take") sem->take();
            else if (n == "give") sem->give();
            else if (n == "takef") sem->take(body(false));
            else if (n == "givef") sem->give(body(false));
            else if (n == "takex") sem->take(body(true));
            else if (n == "givex") sem->give(body(true));
            else if (n == "takee") sem->take(std::function<void()>{});
            else if (n == "givee") sem->give(std::function<void()>{});
            else if (n == "abort") sem->abort();
            else if (n == "count") cnt = rel(sem->getAvailableCount());
            else if (n == "destroy") { delete sem; sem = nullptr; }
            else { vs_log("harness-unknown-op %s", n.c_str()); vs_finish(); }
        }
        catch (const SemaphoreAborted &) { res = "aborted"; }
        catch (const SemaphoreOverflow &) { res = "overflow"; }
        catch (const UserError &e) { res = e.who == t ? "exn" : "wrongexn"; }
        catch (const std::bad_function_call &) { res = "badfn"; }
        catch (...) { res = "otherexn"; }
        vs_op(nullptr);
        vs_log("ret %d %s %ld", t, res.c_str(), cnt);
    };
    Runner<decltype(run)> r(sc, run);
    vs_log("end %d", vs_heap_check());
}
