------------------------------- MODULE Pool -------------------------------
(* The contract of ObjectPool and BlockPool (C11 - C14).                     *)
(*                                                                           *)
(* An element ("block" of memory) is acquired and released; in between,      *)
(* objects are constructed in it, live, and are destroyed.  Objects occupy   *)
(* address ranges.  Every API operation is a call, internal steps and a      *)
(* return; constructors, destructors and content checks are visible steps.   *)
EXTENDS Integers, FiniteSets

VARIABLES
    cfg,     \* [N: size, esz: padded element size, epb: objects per element, scal: scalar blocks]
    inuse,   \* elements acquired and not released
    rc, lw,  \* running count and low watermark as reported
    live,    \* objects alive: [id, blk, type, lo, hi]
    refs,    \* block id -> owners (smart pointers)
    op
plVars == <<cfg, inuse, rc, lw, live, refs, op>>

MaxElements == 1048576
RECURSIVE Pow2Ceil(_, _)
Pow2Ceil(n, p) == IF p >= n THEN p ELSE Pow2Ceil(n, 2 * p)
SizeFor(n) == Pow2Ceil(IF n < 2 THEN 2 ELSE IF n > MaxElements THEN MaxElements ELSE n, 2)
Pad(n) == ((n + 7) \div 8) * 8

Idle == [k |-> "none", ph |-> "idle", r |-> "", id |-> 0, type |-> 0, sz |-> 0, sd |-> FALSE, rel |-> FALSE, n |-> 0, a |-> 0, b |-> 0]
Threads == DOMAIN op
NoRefs == [x \in {} |-> 0]
PoolInit(req, esz, epb, scal, n) ==
    /\ cfg = [N |-> SizeFor(req), esz |-> Pad(esz), epb |-> epb, scal |-> scal]
    /\ inuse = 0 /\ rc = SizeFor(req) /\ lw = SizeFor(req) /\ live = {} /\ refs = NoRefs
    /\ op = [t \in 0..n |-> Idle]

Call(t, k, id, type, sz) ==
    /\ op[t].ph = "idle"
    /\ op' = [op EXCEPT ![t] = [Idle EXCEPT !.k = k, !.ph = "called", !.id = id, !.type = type, !.sz = sz]]
    /\ k = "drop" => id \in DOMAIN refs
    /\ UNCHANGED <<cfg, inuse, rc, lw, live, refs>>

Objects(id) == {o \in live : o.blk = id}
Fits(t) == op[t].sz <= cfg.esz

\* ------------------------------------------------------------- creating
RefuseSize(t) == /\ op[t].k = "new" /\ op[t].ph = "called" /\ ~Fits(t)
                 /\ op' = [op EXCEPT ![t].ph = "done", ![t].r = "sizeerr"]
                 /\ UNCHANGED <<cfg, inuse, rc, lw, live, refs>>
\* exactly when every element is in use
RefuseEmpty(t) == /\ op[t].k = "new" /\ op[t].ph = "called" /\ Fits(t) /\ inuse = cfg.N
                  /\ op' = [op EXCEPT ![t].ph = "done", ![t].r = "under"]
                  /\ UNCHANGED <<cfg, inuse, rc, lw, live, refs>>
Acquire(t) == /\ op[t].k = "new" /\ op[t].ph = "called" /\ Fits(t) /\ inuse < cfg.N
              /\ inuse' = inuse + 1 /\ op' = [op EXCEPT ![t].ph = "making"]
              /\ UNCHANGED <<cfg, rc, lw, live, refs>>
StatDec(t) == /\ op[t].k = "new" /\ op[t].ph = "making" /\ ~op[t].sd /\ rc > 0
              /\ rc' = rc - 1 /\ lw' = IF rc - 1 < lw THEN rc - 1 ELSE lw
              /\ op' = [op EXCEPT ![t].sd = TRUE]
              /\ UNCHANGED <<cfg, inuse, live, refs>>
Disjoint(lo, hi) == \A o \in live : o.hi <= lo \/ hi <= o.lo
Construct(t, id, type, lo, sz) ==
    /\ op[t].k = "new" /\ op[t].ph = "making" /\ op[t].n < cfg.epb
    /\ type = op[t].type
    /\ IF cfg.epb = 1 /\ type # 101 THEN id = op[t].id /\ sz = op[t].sz
                                    ELSE id = op[t].id * 100 + op[t].n /\ sz * cfg.epb = op[t].sz
    /\ Disjoint(lo, lo + sz)
    /\ live' = live \cup {[id |-> id, blk |-> op[t].id, type |-> type, lo |-> lo, hi |-> lo + sz]}
    /\ op' = [op EXCEPT ![t].n = @ + 1]
    /\ UNCHANGED <<cfg, inuse, rc, lw, refs>>
ConstructThrows(t, id) ==
    /\ op[t].k = "new" /\ op[t].ph = "making" /\ op[t].n < cfg.epb /\ id = op[t].id
    /\ op' = [op EXCEPT ![t].ph = "unmaking"]
    /\ UNCHANGED <<cfg, inuse, rc, lw, live, refs>>
\* what was constructed before the exception is destroyed, the element goes back, the exception reaches the caller
UnmakeRelease(t) == /\ op[t].ph = "unmaking" /\ op[t].sd /\ ~op[t].rel /\ Objects(op[t].id) = {}
                    /\ inuse' = inuse - 1 /\ op' = [op EXCEPT ![t].rel = TRUE]
                    /\ UNCHANGED <<cfg, rc, lw, live, refs>>
UnmakeStatDec(t) == /\ op[t].ph = "unmaking" /\ ~op[t].sd /\ rc > 0
                    /\ rc' = rc - 1 /\ lw' = IF rc - 1 < lw THEN rc - 1 ELSE lw
                    /\ op' = [op EXCEPT ![t].sd = TRUE] /\ UNCHANGED <<cfg, inuse, live, refs>>
UnmakeStatInc(t) == /\ op[t].ph = "unmaking" /\ op[t].sd /\ rc < cfg.N /\ op[t].a = 0 /\ Objects(op[t].id) = {}
                    /\ rc' = rc + 1 /\ op' = [op EXCEPT ![t].a = 1]
                    /\ UNCHANGED <<cfg, inuse, lw, live, refs>>
UnmakeDone(t) == /\ op[t].ph = "unmaking" /\ op[t].rel /\ op[t].a = 1
                 /\ op' = [op EXCEPT ![t].ph = "done", ![t].r = "exn"]
                 /\ UNCHANGED <<cfg, inuse, rc, lw, live, refs>>
\* delivery: got is the identity found at the pointer, num the reported number of objects
RetNew(t, r, got, num, lo, sz, zero) ==
    /\ op[t].k = "new"
    /\ IF r = "ok"
       THEN /\ op[t].ph = "making" /\ op[t].sd /\ got = op[t].id /\ num = cfg.epb
            /\ IF cfg.scal THEN /\ op[t].n = 0 /\ sz = op[t].sz /\ zero = 1 /\ Disjoint(lo, lo + sz)
                                /\ live' = live \cup {[id |-> got, blk |-> got, type |-> 102, lo |-> lo, hi |-> lo + sz]}
                           ELSE /\ op[t].n = cfg.epb
                                /\ op[t].type = 101 =>      \* contiguous, from the pointer on
                                      LET es == op[t].sz \div cfg.epb IN {o.lo : o \in Objects(got)} = {lo + i * es : i \in 0..(cfg.epb - 1)}
                                /\ live' = live
            /\ refs' = [x \in DOMAIN refs \cup {got} |-> IF x = got THEN 1 ELSE refs[x]]
       ELSE /\ op[t].ph = "done" /\ op[t].r = r /\ UNCHANGED <<live, refs>>
    /\ op' = [op EXCEPT ![t] = Idle]
    /\ UNCHANGED <<cfg, inuse, rc, lw>>

\* ------------------------------------------------------------- letting go
Share(id) == /\ id \in DOMAIN refs /\ refs' = [refs EXCEPT ![id] = @ + 1] /\ UNCHANGED <<cfg, inuse, rc, lw, live, op>>
DropRef(t) ==
    /\ op[t].k = "drop" /\ op[t].ph = "called"
    /\ LET id == op[t].id  last == refs[id] = 1 IN
       /\ refs' = IF last THEN [x \in DOMAIN refs \ {id} |-> refs[x]] ELSE [refs EXCEPT ![id] = @ - 1]
       /\ op' = [op EXCEPT ![t].ph = IF last THEN "ending" ELSE "done", ![t].r = "ok"]
    /\ UNCHANGED <<cfg, inuse, rc, lw, live>>
\* a destructor runs: once, of the most derived type, by whoever lets go, its contents as the owner left them
Destroy(t, id, type, good) ==
    /\ op[t].ph \in {"ending", "unmaking"} /\ good = 1
    /\ \E o \in Objects(op[t].id) : o.id = id /\ o.type = type /\ live' = live \ {o}
    /\ UNCHANGED <<cfg, inuse, rc, lw, refs, op>>
Release(t) ==
    /\ op[t].ph = "ending" /\ ~op[t].rel
    /\ (cfg.scal \/ Objects(op[t].id) = {})
    /\ live' = live \ Objects(op[t].id)
    /\ inuse' = inuse - 1 /\ op' = [op EXCEPT ![t].rel = TRUE]
    /\ UNCHANGED <<cfg, rc, lw, refs>>
StatInc(t) == /\ op[t].ph = "ending" /\ ~op[t].sd /\ rc < cfg.N
              /\ rc' = rc + 1 /\ op' = [op EXCEPT ![t].sd = TRUE]
              /\ UNCHANGED <<cfg, inuse, lw, live, refs>>
RetDrop(t, r) == /\ op[t].k = "drop" /\ r = "ok"
                 /\ (op[t].ph = "done" \/ (op[t].ph = "ending" /\ op[t].rel /\ op[t].sd))
                 /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED <<cfg, inuse, rc, lw, live, refs>>

\* ------------------------------------------------------------- statistics, content checks
LinStat(t) == /\ op[t].k = "stat" /\ op[t].ph = "called"
              /\ op' = [op EXCEPT ![t].ph = "done", ![t].a = rc, ![t].b = lw]
              /\ UNCHANGED <<cfg, inuse, rc, lw, live, refs>>
RetStat(t, size, r, w) == /\ op[t].k = "stat" /\ op[t].ph = "done" /\ size = cfg.N /\ op[t].a = r /\ op[t].b = w
                          /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED <<cfg, inuse, rc, lw, live, refs>>
\* an owner finds its contents as it left them
Intact(good) == good = 1 /\ UNCHANGED plVars
\* nobody ever waits
Quiescent(Stuck) == Stuck = {} /\ (\A t \in Threads : op[t].ph \in {"idle", "making", "ending"}) /\ UNCHANGED plVars   \* (user code may take its time)

Lin(t) == RefuseSize(t) \/ RefuseEmpty(t) \/ Acquire(t) \/ StatDec(t) \/ UnmakeRelease(t) \/ UnmakeStatDec(t) \/ UnmakeStatInc(t)
          \/ UnmakeDone(t) \/ DropRef(t) \/ Release(t) \/ StatInc(t) \/ LinStat(t)

----------------------------------------------------------------------------
\* Properties of the contract
RangesDisjoint == \A a, b \in live : a # b => (a.hi <= b.lo \/ b.hi <= a.lo)       \* C11
InUseBounded == 0 <= inuse /\ inuse <= cfg.N                                       \* C12
CountBounded == 0 <= rc /\ rc <= cfg.N /\ 0 <= lw /\ lw <= rc                      \* C14
\* with no operation in progress the running count is exact                        \* C14
ExactWhenIdle == (\A t \in Threads : op[t].ph = "idle") => rc = cfg.N - inuse
\* everything alive is owned or is being made or destroyed                        \* C13
Owned == \A o \in live : o.blk \in DOMAIN refs \/ \E t \in Threads : op[t].id = o.blk /\ op[t].ph \in {"making", "unmaking", "ending"}
AllBack == (refs = NoRefs /\ \A t \in Threads : op[t].ph = "idle") => (inuse = 0 /\ live = {} /\ rc = cfg.N)   \* C12
=============================================================================
