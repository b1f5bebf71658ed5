"""Which scripts and which models decide which property."""
import scen_sem, scen_mutex, scen_ring, scen_pool, scen_mq, gen

ASSUMPTIONS = [
    "Sequentially consistent interleavings at atomic operations, pthread operations, callbacks and racy plain accesses; hardware reorderings beyond that are not explored.",
    "The pthread primitives behave as POSIX specifies (they are modelled by the scheduler, including arbitrary choice of the condition waiter to wake and spurious wakeups).",
    "Sleeping threads resume only when no other thread can run, i.e. the destructor's 100 ms suffice for the others to leave.",
    "gcc 13 with -fsanitize=thread instrumentation, our own runtime; POSIX build of the library (REISER_RT_HAS_PTHREADS).",
    "TLC's fingerprinting; the JSON trie encoding of histories.",
]

PROPS = {
    "C01": ["sem"], "C02": ["sem"], "C03": ["sem"], "C04": ["sem"], "C05": ["sem"], "C06": ["mutex"],
    "C07": ["rseq"], "C08": ["ring", "rseq"], "C09": ["ring"], "C10": ["ring", "rseq"],
    "C11": ["pool"], "C12": ["pool"], "C13": ["pool"], "C14": ["pool"],
    "C15": ["mq"], "C16": ["mq"], "C17": ["mq"], "C18": ["mq"], "C19": ["mq"],
}
GEN = {"sem": scen_sem.scenarios, "mutex": scen_mutex.scenarios, "ring": scen_ring.scenarios, "rseq": scen_ring.seq_scenarios, "pool": scen_pool.scenarios, "mq": scen_mq.scenarios}
def M(module, cfg=None, tier="quick", **kw):
    return dict(module=module, cfg=cfg or module, tier=tier, **kw)
_sem = [M("MC_Semaphore")]
_ring = [M("MC_RingGuarded", "MC_RingGuarded2"), M("MC_RingGuarded", tier="thorough")]
_mq = [M("MC_MsgQueue"), M("MC_MsgQueue", "MC_MsgQueue3", "thorough")]
_pool = [M("MC_Pool"), M("MC_Pool", "MC_PoolScal"), M("MC_Pool", "MC_PoolBlk"), M("MC_Pool", "MC_Pool3", "thorough")]
MODELS = {
    "C01": _sem, "C02": _sem, "C03": _sem, "C04": _sem, "C05": _sem,
    "C06": [M("MC_Mutex", "MC_Mutex3"), M("MC_Mutex", "MC_Mutex4", "thorough")],
    "C07": [M("MC_RingSimple")], "C08": [M("MC_RingSimple"), M("MC_RingGuarded", tier="thorough")], "C09": _ring, "C10": _ring,
    "C11": _pool, "C12": _pool, "C13": _pool, "C14": _pool,
    "C15": _mq, "C16": _mq, "C17": [M("MC_MsgQueue", "MC_MsgQueueLock"), M("MC_MsgQueue", "MC_MsgQueueLock2", "thorough", workers=8)], "C18": _mq, "C19": _mq,
}

def scenarios(prop, tier, seed, tmp):
    L = []
    for c in PROPS[prop]:
        L += GEN[c](tier, seed)
    g, cov = gen.scenarios(prop, tier, seed, tmp)
    return L + g, cov

def models(prop, tier):
    return [m for m in MODELS.get(prop, []) if m.get("tier", "quick") == "quick" or tier == "thorough"]

def extra(prop, tier, seed, tmp, exes):
    return {}
