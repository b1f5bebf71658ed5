------------------------------ MODULE MsgQueue ------------------------------
(* The contract of ReiserRT::Core::MessageQueue (C15 - C19).                 *)
(*                                                                           *)
(* Operations done from within a dispatch or a wakeup functor are those of   *)
(* the virtual thread t + VIRT.                                              *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
    cfg,     \* [N, esz, lock, st]; st: are statistics of interest (if not, counting is one step with what it counts)
    free,    \* slots nobody uses
    q,       \* queued messages, oldest first
    live,    \* messages alive: [id, type, lo, hi]
    rc, hw,  \* running count and high watermark
    name,    \* last dispatched name: id of the message, NoName, DefaultName
    ab,      \* abort: "none", "begun", "done"
    mu,      \* dispatch mutexes (1: this queue's, 2: another queue's): Nobody or the thread holding it
    lk,      \* thread -> lock objects: slot -> [q, st]
    op
mqVars == <<cfg, free, q, live, rc, hw, name, ab, mu, lk, op>>
VIRT == 10
Nobody == -1
NoName == -1
DefaultName == -2
Absent == [q |-> 0, st |-> "absent"]
\* id: message (of a get, before one is obtained: wakeup functor, 0 none, 1 returns, 2 throws, 3 empty; of a lock
\* operation: its first lock object); type: of a message (of a lock operation: second lock object, or queue)
Idle == [k |-> "none", ph |-> "idle", r |-> "", id |-> 0, type |-> 0, sz |-> 0, a |-> 0, b |-> 0, cnt |-> FALSE, rel |-> FALSE, nm |-> FALSE]
Threads == DOMAIN op
Pad(n) == IF n % 8 = 0 THEN n ELSE n + 8 - (n % 8)
\* v: whether anything is done from within dispatches or wakeup functors; ns: number of lock objects per thread
ThreadSet(n, v) == (0..n) \cup (IF v THEN {t + VIRT : t \in 0..n} ELSE {})

MQInit(size, max, lock, n, v, ns, st) ==
    /\ cfg = [N |-> size, esz |-> Pad(max), lock |-> lock, st |-> st]
    /\ free = size /\ q = <<>> /\ live = {} /\ rc = 0 /\ hw = 0 /\ name = NoName /\ ab = "none"
    /\ mu = [i \in 1..2 |-> Nobody] /\ lk = [t \in ThreadSet(n, v) |-> [s \in 1..ns |-> Absent]]
    /\ op = [t \in ThreadSet(n, v) |-> Idle]

Msg(id) == CHOOSE m \in live : m.id = id
Alive(id) == \E m \in live : m.id = id
Is(t, K) == op[t].ph = "called" /\ op[t].k \in K
Done(t, r) == op' = [op EXCEPT ![t].ph = "done", ![t].r = r]

\* a lock operation releases what it has to as soon as it is called (others may only notice later)
Held(t, s) == lk[t][s].st = "held"
MuAfter(t, k, s, d) ==
    IF k \in {"ul", "dl"} /\ Held(t, s) THEN [mu EXCEPT ![lk[t][s].q] = Nobody]
    ELSE IF k = "ma" /\ s # d /\ Held(t, d) THEN [mu EXCEPT ![lk[t][d].q] = Nobody]
    ELSE mu
LkAfter(t, k, s, d) ==
    IF k = "ul" /\ Held(t, s) THEN [lk EXCEPT ![t][s].st = "open"]
    ELSE IF k = "dl" THEN [lk EXCEPT ![t][s] = Absent]
    ELSE IF k \in {"mc", "ma"} /\ s # d THEN [lk EXCEPT ![t][d] = lk[t][s], ![t][s] = [q |-> 0, st |-> "empty"]]
    ELSE lk
Call(t, k, a, b, c) ==
    /\ op[t].ph = "idle"
    /\ op' = [op EXCEPT ![t] = [Idle EXCEPT !.k = k, !.ph = "called", !.id = a, !.type = b, !.sz = c]]
    /\ mu' = MuAfter(t, k, a, b) /\ lk' = LkAfter(t, k, a, b)
    /\ UNCHANGED <<cfg, free, q, live, rc, hw, name, ab>>

\* ------------------------------------------------------------- put, emplace
RefuseSize(t) == Is(t, {"put"}) /\ op[t].sz > cfg.esz /\ Done(t, "sizeerr") /\ UNCHANGED <<cfg, free, q, live, rc, hw, name, ab, mu, lk>>
RefuseAborted(t) ==
    /\ Is(t, {"put", "get", "purge"}) /\ ab # "none" /\ (op[t].k = "put" => op[t].sz <= cfg.esz)
    /\ (Done(t, "stateerr") \/ Done(t, "aborted"))
    /\ UNCHANGED <<cfg, free, q, live, rc, hw, name, ab, mu, lk>>
Acquire(t) ==
    /\ Is(t, {"put"}) /\ op[t].sz <= cfg.esz /\ free > 0 /\ ab # "done"
    /\ free' = free - 1 /\ op' = [op EXCEPT ![t].ph = "making"]
    /\ UNCHANGED <<cfg, q, live, rc, hw, name, ab, mu, lk>>
Count(t) ==
    /\ op[t].ph = "making" /\ ~op[t].cnt /\ rc < cfg.N /\ cfg.st
    /\ rc' = rc + 1 /\ hw' = (IF rc + 1 > hw THEN rc + 1 ELSE hw) /\ op' = [op EXCEPT ![t].cnt = TRUE]
    /\ UNCHANGED <<cfg, free, q, live, name, ab, mu, lk>>
\* storage: large enough and nobody else's
Construct(t, id, type, lo, sz) ==
    /\ op[t].ph = "making" /\ id = op[t].id /\ type = op[t].type /\ sz = op[t].sz /\ ~Alive(id)
    /\ \A m \in live : m.hi <= lo \/ lo + sz <= m.lo
    /\ live' = live \cup {[id |-> id, type |-> type, lo |-> lo, hi |-> lo + sz]}
    /\ op' = [op EXCEPT ![t].ph = "made"]
    /\ (IF op[t].cnt THEN UNCHANGED <<rc, hw>>
        ELSE rc < cfg.N /\ rc' = rc + 1 /\ hw' = (IF rc + 1 > hw THEN rc + 1 ELSE hw))
    /\ UNCHANGED <<cfg, free, q, name, ab, mu, lk>>
ConstructThrows(t, id) ==
    /\ op[t].ph = "making" /\ id = op[t].id
    /\ op' = [op EXCEPT ![t].ph = "ending", ![t].r = "exn"]
    /\ (IF op[t].cnt THEN UNCHANGED <<rc, hw>>
        ELSE rc < cfg.N /\ rc' = rc + 1 /\ hw' = (IF rc + 1 > hw THEN rc + 1 ELSE hw))
    /\ UNCHANGED <<cfg, free, q, live, name, ab, mu, lk>>
Enqueue(t) ==
    /\ op[t].ph = "made" /\ ab # "done"
    /\ q' = Append(q, op[t].id) /\ Done(t, "ok")
    /\ UNCHANGED <<cfg, free, live, rc, hw, name, ab, mu, lk>>
\* aborted: the message has to go again
EnqueueFails(t) ==
    /\ op[t].ph = "made" /\ ab # "none"
    /\ \E r \in {"aborted", "stateerr"} : op' = [op EXCEPT ![t].ph = "dying", ![t].r = r]
    /\ UNCHANGED <<cfg, free, q, live, rc, hw, name, ab, mu, lk>>

\* ------------------------------------------------------------- get and dispatch
Obtain(t) ==
    /\ Is(t, {"get"}) /\ q # <<>> /\ ab # "done"
    /\ q' = Tail(q)
    /\ op' = [op EXCEPT ![t].a = op[t].id, ![t].id = Head(q), ![t].ph = IF op[t].id = 0 THEN "woken" ELSE "got"]
    /\ UNCHANGED <<cfg, free, live, rc, hw, name, ab, mu, lk>>
\* the wakeup functor is called
Wake(t, throws) ==
    /\ op[t].ph = "got" /\ op[t].a \in {1, 2} /\ throws = (op[t].a = 2)
    /\ op' = [op EXCEPT ![t].ph = IF throws THEN "dying" ELSE "woken", ![t].r = "exn"]
    /\ UNCHANGED <<cfg, free, q, live, rc, hw, name, ab, mu, lk>>
WakeEmpty(t) ==
    /\ op[t].ph = "got" /\ op[t].a = 3
    /\ op' = [op EXCEPT ![t].ph = "dying", ![t].r = "badfn"]
    /\ UNCHANGED <<cfg, free, q, live, rc, hw, name, ab, mu, lk>>
NameOf(id) == IF Msg(id).type = 5 THEN DefaultName ELSE id
SetName(t) ==
    /\ op[t].ph = "woken" /\ ~op[t].nm
    /\ name' = NameOf(op[t].id) /\ op' = [op EXCEPT ![t].nm = TRUE]
    /\ UNCHANGED <<cfg, free, q, live, rc, hw, ab, mu, lk>>
NameThrows(t, id) ==
    /\ op[t].ph = "woken" /\ ~op[t].nm /\ id = op[t].id
    /\ op' = [op EXCEPT ![t].ph = "dying", ![t].r = "exn"]
    /\ UNCHANGED <<cfg, free, q, live, rc, hw, name, ab, mu, lk>>
DispatchBegin(t, id) ==
    /\ op[t].ph = "woken" /\ op[t].nm /\ id = op[t].id
    /\ IF cfg.lock THEN mu[1] = Nobody /\ mu' = [mu EXCEPT ![1] = t] ELSE mu' = mu
    /\ op' = [op EXCEPT ![t].ph = "dispatching"]
    /\ UNCHANGED <<cfg, free, q, live, rc, hw, name, ab, lk>>
DispatchEnd(t, id, threw) ==
    /\ op[t].ph = "dispatching" /\ id = op[t].id
    /\ mu' = IF cfg.lock THEN [mu EXCEPT ![1] = Nobody] ELSE mu
    /\ op' = [op EXCEPT ![t].ph = "dying", ![t].r = IF threw THEN "exn" ELSE "ok"]
    /\ UNCHANGED <<cfg, free, q, live, rc, hw, name, ab, lk>>

\* ------------------------------------------------------------- purge, abort, destruction
PurgeTake(t) ==
    /\ Is(t, {"purge"}) /\ q # <<>> /\ ab # "done"
    /\ q' = Tail(q) /\ op' = [op EXCEPT ![t].ph = "dying", ![t].id = Head(q), ![t].r = "purging"]
    /\ UNCHANGED <<cfg, free, live, rc, hw, name, ab, mu, lk>>
PurgeEnd(t) == Is(t, {"purge"}) /\ q = <<>> /\ Done(t, "ok") /\ UNCHANGED <<cfg, free, q, live, rc, hw, name, ab, mu, lk>>
AbBegin(t) ==
    /\ Is(t, {"abort", "destroy"})
    /\ ab' = (IF ab = "none" THEN "begun" ELSE ab) /\ op' = [op EXCEPT ![t].ph = "aborting"]
    /\ UNCHANGED <<cfg, free, q, live, rc, hw, name, mu, lk>>
AbEnd(t) ==
    /\ op[t].ph = "aborting" /\ ab' = "done"
    /\ IF op[t].k = "abort" THEN Done(t, "ok") ELSE op' = [op EXCEPT ![t].ph = "flushing"]
    /\ UNCHANGED <<cfg, free, q, live, rc, hw, name, mu, lk>>
DestroyEnd(t) ==
    /\ op[t].ph = "flushing" /\ q = <<>> /\ live = {} /\ (\A u \in Threads \ {t} : op[u].ph = "idle")
    /\ Done(t, "ok") /\ UNCHANGED <<cfg, free, q, live, rc, hw, name, ab, mu, lk>>

\* ------------------------------------------------------------- the end of a message
Destroy(t, id, type) ==
    /\ \/ op[t].ph = "dying" /\ id = op[t].id /\ q' = q /\ op' = [op EXCEPT ![t].ph = "ending"]
       \/ op[t].ph = "flushing" /\ (\E i \in 1..Len(q) : q[i] = id /\ q' = SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))) /\ op' = op
    /\ \E m \in live : m.id = id /\ m.type = type /\ live' = live \ {m}
    /\ UNCHANGED <<cfg, free, rc, hw, name, ab, mu, lk>>
Uncount(t) ==
    /\ op[t].ph = "ending" /\ ~op[t].rel /\ rc > 0 /\ cfg.st
    /\ rc' = rc - 1 /\ op' = [op EXCEPT ![t].rel = TRUE]
    /\ UNCHANGED <<cfg, free, q, live, hw, name, ab, mu, lk>>
Release(t) ==
    /\ op[t].ph = "ending" /\ (IF cfg.st THEN op[t].rel /\ rc' = rc ELSE rc' = rc - 1)
    /\ free' = free + 1
    /\ op' = IF op[t].r = "purging" THEN [op EXCEPT ![t] = [Idle EXCEPT !.k = "purge", !.ph = "called"]] ELSE [op EXCEPT ![t].ph = "done"]
    /\ UNCHANGED <<cfg, q, live, hw, name, ab, mu, lk>>

\* ------------------------------------------------------------- locks
RefuseLock(t) == Is(t, {"lk"}) /\ op[t].type = 0 /\ ~cfg.lock /\ Done(t, "disabled") /\ UNCHANGED <<cfg, free, q, live, rc, hw, name, ab, mu, lk>>
\* what a lk or rl locks: 0 nothing
Wants(t) == IF op[t].k = "lk" THEN op[t].type + 1 ELSE lk[t][op[t].id].q
Quick(t) == (op[t].k = "rl" /\ lk[t][op[t].id].st = "empty") \/ op[t].k \in {"ul", "dl", "mc", "ma"}
LinLock(t) ==
    /\ Is(t, {"lk", "rl"}) /\ ~Quick(t) /\ (op[t].k = "lk" /\ op[t].type = 0 => cfg.lock)
    /\ mu[Wants(t)] = Nobody
    /\ mu' = [mu EXCEPT ![Wants(t)] = t] /\ lk' = [lk EXCEPT ![t][op[t].id] = [q |-> Wants(t), st |-> "held"]]
    /\ Done(t, "ok")
    /\ UNCHANGED <<cfg, free, q, live, rc, hw, name, ab>>
LinQuick(t) == op[t].ph = "called" /\ Quick(t) /\ Done(t, "ok") /\ UNCHANGED <<cfg, free, q, live, rc, hw, name, ab, mu, lk>>

\* ------------------------------------------------------------- queries
LinStat(t) == /\ Is(t, {"stat"}) /\ op' = [op EXCEPT ![t].ph = "done", ![t].a = rc, ![t].b = hw]
              /\ UNCHANGED <<cfg, free, q, live, rc, hw, name, ab, mu, lk>>
RetStat(t, size, r, w) == /\ op[t].k = "stat" /\ op[t].ph = "done" /\ size = cfg.N /\ r = op[t].a /\ w = op[t].b
                          /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED <<cfg, free, q, live, rc, hw, name, ab, mu, lk>>
LinName(t) == /\ Is(t, {"name"}) /\ op' = [op EXCEPT ![t].ph = "done", ![t].a = name]
              /\ UNCHANGED <<cfg, free, q, live, rc, hw, name, ab, mu, lk>>
RetName(t, c) == /\ op[t].k = "name" /\ op[t].ph = "done" /\ c = op[t].a
                 /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED <<cfg, free, q, live, rc, hw, name, ab, mu, lk>>
Ret(t, r) == /\ op[t].ph = "done" /\ op[t].k \notin {"stat", "name"} /\ op[t].r = r
             /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED <<cfg, free, q, live, rc, hw, name, ab, mu, lk>>

Lin(t) ==
    \/ op[t].ph = "called" /\
          CASE op[t].k = "put" -> RefuseSize(t) \/ RefuseAborted(t) \/ Acquire(t)
            [] op[t].k = "get" -> RefuseAborted(t) \/ Obtain(t)
            [] op[t].k = "purge" -> RefuseAborted(t) \/ PurgeTake(t) \/ PurgeEnd(t)
            [] op[t].k \in {"abort", "destroy"} -> AbBegin(t)
            [] op[t].k = "stat" -> LinStat(t)
            [] op[t].k = "name" -> LinName(t)
            [] OTHER -> RefuseLock(t) \/ LinLock(t) \/ LinQuick(t)
    \/ op[t].ph = "making" /\ Count(t)
    \/ op[t].ph = "made" /\ (Enqueue(t) \/ EnqueueFails(t))
    \/ op[t].ph = "got" /\ WakeEmpty(t)
    \/ op[t].ph = "woken" /\ SetName(t)
    \/ op[t].ph = "ending" /\ (Uncount(t) \/ Release(t))
    \/ op[t].ph = "aborting" /\ AbEnd(t)
    \/ op[t].ph = "flushing" /\ DestroyEnd(t)

MayWait(t) ==
    \/ op[t].ph = "called" /\ ab = "none" /\ op[t].k = "put" /\ free = 0 /\ op[t].sz <= cfg.esz
    \/ op[t].ph = "called" /\ ab = "none" /\ op[t].k = "get" /\ q = <<>>
    \/ op[t].ph = "woken" /\ cfg.lock /\ mu[1] # Nobody
    \/ op[t].ph = "called" /\ op[t].k \in {"lk", "rl"} /\ ~Quick(t) /\ mu[Wants(t)] # Nobody
\* within a dispatch or wakeup functor, the operation done there may wait
MayWaitIn(t) == op[t].ph \in {"dispatching", "woken", "dying"} /\ (t + VIRT) \in Threads /\ MayWait(t + VIRT)
Quiescent(Stuck) ==
    /\ \A t \in Threads : t < VIRT => IF t \in Stuck THEN MayWait(t) \/ MayWaitIn(t) ELSE op[t].ph \in {"idle", "making", "dispatching", "woken", "dying"}   \* (user code may take its time)
    /\ UNCHANGED mqVars
----------------------------------------------------------------------------
\* Properties of the contract
Owned(id) == {t \in Threads : op[t].id = id /\ op[t].k \in {"put", "get", "purge"} /\ op[t].ph \in {"made", "got", "woken", "dispatching", "dying"}}
Slots == free + Len(q) + Cardinality({t \in Threads : op[t].k \in {"put", "get", "purge"} /\ op[t].ph \in {"making", "made", "got", "woken", "dispatching", "dying", "ending"}})
ConservesSlots == Slots = cfg.N \/ \E t \in Threads : op[t].ph = "flushing" \/ (op[t].k = "destroy" /\ op[t].ph = "done")     \* C15, C16
QueuedAlive == \A i \in 1..Len(q) : Alive(q[i])                                                     \* C16
NoDuplicates == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]                                        \* C15
OneOwner == \A m \in live : Cardinality(Owned(m.id)) + Cardinality({i \in 1..Len(q) : q[i] = m.id}) = 1  \* C15, C16
RangesDisjoint == \A m, n \in live : m # n => (m.hi <= n.lo \/ n.hi <= m.lo)                        \* C16
DispatchAlive == \A t \in Threads : op[t].ph = "dispatching" => Alive(op[t].id)                      \* C16
Exclusion == cfg.lock => Cardinality({t \in Threads : op[t].ph = "dispatching"} \cup {t \in Threads : \E s \in DOMAIN lk[t] : lk[t][s] = [q |-> 1, st |-> "held"]}) <= 1   \* C17
LockOwners == \A i \in 1..2 : Cardinality(UNION {{<<t, s>> : s \in {x \in DOMAIN lk[t] : lk[t][x] = [q |-> i, st |-> "held"]}} : t \in Threads}) <= 1   \* C17
CountBounded == 0 <= rc /\ rc <= cfg.N /\ rc <= hw /\ hw <= cfg.N                                   \* C19
ExactWhenIdle == (\A t \in Threads : op[t].ph = "idle") /\ ab = "none" => (rc = Len(q) /\ free = cfg.N - Len(q))  \* C19
=============================================================================
