// What harness objects tell the history about themselves: birth, death, contents, addresses. Shared by h_pool and h_mq.
#pragma once
#include "common.h"
#define QUIET __attribute__((no_sanitize("thread"), noinline))

#ifndef WHO
#define WHO vs_self()
#endif
// ---- what is alive, by address (not part of the code under test, hence invisible to the scheduler)
struct Live { const void *key; int id, type; bool on; };
static Live live[4096]; static int nlive;
static uintptr_t origin;
QUIET static int findLive(const void *k) { for (int i = nlive - 1; i >= 0; --i) if (live[i].on && live[i].key == k) return i; return -1; }
QUIET static long relAddr(const void *p)
{
    if (!origin) origin = (uintptr_t)p;
    long d = (long)((uintptr_t)p - origin);
    return d > 1000000000 ? 1000000000 : d < -1000000000 ? -1000000000 : d;
}
QUIET static void born(const void *key, const void *lo, size_t size, int id, int type, int good)
{
    int al = ((uintptr_t)lo % sizeof(void *) == 0 || type >= 100) && vs_in_heap(lo, size) != 0;
    if (nlive < 4096) live[nlive++] = Live{key, id, type, true};
    vs_log("ct %d %d %d %ld %ld %d %d", WHO, id, type, relAddr(lo), (long)size, al, good);
}
QUIET static void died(const void *key, int type, int good)
{
    int i = findLive(key);
    if (i < 0) { vs_log("dt %d -1 %d %d", WHO, type, good); return; }
    live[i].on = false;
    vs_log("dt %d %d %d %d", WHO, live[i].id, type, good);
}
QUIET static int idOf(const void *key) { int i = findLive(key); return i < 0 ? -1 : live[i].id; }

static inline unsigned char stampOf(int id) { return (unsigned char)(id * 7 + 1) | 1; }
template <size_t N> struct Bytes {
    unsigned char b[N];
    void set(unsigned char s) { for (auto &x : b) x = s; }
    bool ok(unsigned char s) const { for (auto &x : b) if (x != s) return false; return true; }
};
