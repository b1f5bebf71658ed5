------------------------------ MODULE MC_Pool ------------------------------
(* The pool contract by itself. The environment of the contract (the code)   *)
(* is as free as the contract lets it be: any slot, any order.               *)
EXTENDS Pool
CONSTANTS NT, MAXID, REQ, EPB, SCAL, SHARE
VARIABLE nid
vars == <<plVars, nid>>
ES == 8
ESZ == ES * EPB
MCInit == PoolInit(REQ, ESZ, EPB, SCAL, NT - 1) /\ nid = 1
Slot == {i * ESZ : i \in 0..(cfg.N - 1)}
Ty == IF EPB > 1 THEN 101 ELSE 1
Objs(t) == {o \in live : o.blk = op[t].id}
Work(t) == /\ nid' = nid
           /\ \/ Lin(t)
              \* the first object may be anywhere, the next follow
              \/ op[t].ph = "making" /\ ~cfg.scal /\ op[t].n < cfg.epb /\ \E b \in Slot :
                    /\ (op[t].n > 0 => \E o \in Objs(t) : o.id = op[t].id * 100 /\ o.lo = b)
                    /\ Construct(t, IF EPB > 1 THEN op[t].id * 100 + op[t].n ELSE op[t].id, Ty, b + ES * op[t].n, ES)
              \/ (~cfg.scal /\ ConstructThrows(t, op[t].id))
              \/ op[t].ph = "done" /\ op[t].k = "new" /\ RetNew(t, op[t].r, -1, 0, 0, 0, 1)
              \/ op[t].ph = "making" /\ \E b \in Slot : RetNew(t, "ok", op[t].id, EPB, b, ESZ, 1)
              \/ \E o \in live : Destroy(t, o.id, o.type, 1)
              \/ RetDrop(t, "ok")
              \/ RetStat(t, cfg.N, op[t].a, op[t].b)
Calls == \E t \in Threads :
    \/ nid <= MAXID /\ (\E sz \in {ESZ, ESZ + 8} : Call(t, "new", nid, Ty, sz)) /\ nid' = nid + 1
    \* every owner is dropped once: no more drops under way than owners
    \/ \E id \in DOMAIN refs : Cardinality({u \in Threads : op[u].k = "drop" /\ op[u].id = id /\ op[u].ph = "called"}) < refs[id]
                               /\ Call(t, "drop", id, 0, 0) /\ nid' = nid
    \/ Call(t, "stat", 0, 0, 0) /\ nid' = nid
    \/ SHARE /\ op[t].ph = "idle" /\ (\E id \in DOMAIN refs : refs[id] < 2 /\ (\A u \in Threads : op[u].k = "drop" => op[u].id # id) /\ Share(id)) /\ nid' = nid
MCNext == Calls \/ \E t \in Threads : Work(t)
MCSpec == MCInit /\ [][MCNext]_vars
LwFalls == [][lw' <= lw]_vars                        \* C14
\* C12: nothing blocks (between the steps of a release, statistics of others may have to wait for it, no longer)
NeverStuck == (\E t \in Threads : op[t].ph # "idle") => \E t \in Threads : op[t].ph # "idle" /\ ENABLED Work(t)
LiveFits == Cardinality({o.blk : o \in live}) <= inuse                    \* C11, C12
=============================================================================
