// Scenario interpreter for Mutex, and for the locks inside the other objects.
// ops: lock try unlock (the Mutex), nlock ntry nunlock (the same mutex through its native handle), g u (lock_guard section, try_to_lock section; :g  waits at a gate),
//      elock:E etry:E eunlock:E (the platform reports error E), pi:<object> (are all locks of that object priority inheriting?)
#include "common.h"
#include "Mutex.hpp"
#include "Semaphore.hpp"
#include "RingBufferGuarded.hpp"
#include "ObjectPool.hpp"
#include "BlockPool.hpp"
#include "MessageQueue.hpp"
#include <pthread.h>
#include <system_error>
#include <mutex>
using namespace ReiserRT::Core;
struct Msg : MessageBase { void dispatch() override { vs_point(); } };
struct Thing { long x[3]; virtual ~Thing() = default; };
static void useObject(const std::string &o, int phase)
{
    // each object is built and used far enough for every lock inside to be created
    static Semaphore *s; static RingBufferGuarded<int> *r; static ObjectPool<Thing> *p; static BlockPool<int> *b; static MessageQueue *q; static Mutex *m;
    if (phase == 0) {
        if (o == "mutex") { m = new Mutex; m->lock(); m->unlock(); }
        else if (o == "semaphore") { s = new Semaphore(1); s->take(); s->give(); }
        else if (o == "ring") { r = new RingBufferGuarded<int>(3); r->put(1); r->get(); }
        else if (o == "primed") { r = new RingBufferGuarded<int>(3, true); r->prime([](size_t i) { return (int)i; }); r->get(); }
        else if (o == "objectpool") { p = new ObjectPool<Thing>(4); auto x = p->createObj<Thing>(); }
        else if (o == "blockpool") { b = new BlockPool<int>(4, 5); auto x = b->getBlock(); }
        else if (o == "queue") { q = new MessageQueue(4, sizeof(Msg)); q->emplace<Msg>(); q->getAndDispatch(); }
        else if (o == "queuelock") { q = new MessageQueue(4, sizeof(Msg), true); q->emplace<Msg>(); q->getAndDispatch(); { auto l = q->getAutoDispatchLock(); } }
    }
}
void scenario(const char *txt)
{
    Script sc(txt);
    vs_log("init %d", (int)sc.thr.size() - 1);
    Mutex *mx = new Mutex;
    int shared = 0;      // owned by the mutex
    auto run = [&](int t, const Op &o) {
        const std::string &n = o.name;
        if (n == "pi") {
            useObject(o.s(0), 0);
            vs_log("pi %s %d %d", o.s(0).c_str(), vs_mutex_count(), vs_pi_all());
            return;
        }
        std::string res = "ok";
        vs_point();
        const char *kind = n.c_str();
        if (n == "nlock") kind = "lock"; else if (n == "ntry") kind = "try"; else if (n == "nunlock") kind = "unlock";
        vs_log("call %d %s %d", t, kind, n[0] == 'e' ? (int)o.a(0) : 0);
        vs_op(kind);
        auto nh = static_cast<pthread_mutex_t *>(mx->native_handle());
        try {
            if (n == "lock") mx->lock();
            else if (n == "try") res = mx->try_lock() ? "true" : "false";
            else if (n == "unlock") mx->unlock();
            else if (n == "nlock") pthread_mutex_lock(nh);
            else if (n == "ntry") res = pthread_mutex_trylock(nh) == 0 ? "true" : "false";
            else if (n == "nunlock") { if (pthread_mutex_unlock(nh)) res = "syserr1"; }
            else if (n == "g") { std::lock_guard<Mutex> l(*mx); vs_log("in %d", t); if (o.s(0) == "g") vs_gate(); vs_point(); ++shared; vs_point(); vs_log("out %d", t); }
            else if (n == "u") { std::unique_lock<Mutex> l(*mx, std::try_to_lock); if (l.owns_lock()) { vs_log("in %d", t); if (o.s(0) == "g") vs_gate(); vs_point(); vs_log("out %d", t); res = "true"; } else res = "false"; }
            else if (n == "elock") { vs_fail((int)o.a(0)); mx->lock(); }
            else if (n == "etry") { vs_fail((int)o.a(0)); res = mx->try_lock() ? "true" : "false"; }
            else if (n == "eunlock") { vs_fail((int)o.a(0)); mx->unlock(); }
            else { vs_log("harness-unknown-op %s", n.c_str()); vs_finish(); }
        }
        catch (const std::system_error &e) { res = "syserr" + std::to_string(e.code().value()); }
        catch (...) { res = "otherexn"; }
        vs_fail(0);
        vs_op(nullptr);
        vs_log("ret %d %s", t, res.c_str());
    };
    Runner<decltype(run)> r(sc, run);
    vs_log("end %d", vs_heap_check());
}
