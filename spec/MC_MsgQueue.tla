---------------------------- MODULE MC_MsgQueue ----------------------------
(* The MessageQueue contract by itself: NT threads that put (with            *)
(* constructors that throw or not), get and dispatch (with everything that   *)
(* can throw throwing or not), query, lock, abort and destroy at will.       *)
EXTENDS MsgQueue
CONSTANTS NT, MAXID, SIZE, LOCK, NS, STAT, ABORTS, KINDS
VARIABLES nid, put, taken       \* puts and takes in the order they took effect
vars == <<mqVars, nid, put, taken>>
SZ == 8
MCInit == MQInit(SIZE, SZ, LOCK, NT - 1, FALSE, NS, STAT) /\ nid = 1 /\ put = <<>> /\ taken = <<>>
Slot == {i * SZ : i \in 0..(SIZE - 1)}
Destroying == \E t \in Threads : op[t].k = "destroy" \/ op[t].k = "gone"
Log == /\ put' = IF Len(q') > Len(q) THEN Append(put, q'[Len(q')]) ELSE put
       /\ taken' = IF Len(q') < Len(q) THEN Append(taken, Head(q)) ELSE taken
Work(t) == /\ nid' = nid
           /\ \/ Lin(t)
              \/ op[t].ph = "making" /\ \E b \in Slot : Construct(t, op[t].id, op[t].type, b, op[t].sz)
              \/ op[t].ph = "making" /\ ConstructThrows(t, op[t].id)
              \/ op[t].ph = "got" /\ \E x \in BOOLEAN : Wake(t, x)
              \/ op[t].ph = "woken" /\ (NameThrows(t, op[t].id) \/ DispatchBegin(t, op[t].id))
              \/ op[t].ph = "dispatching" /\ \E x \in BOOLEAN : DispatchEnd(t, op[t].id, x)
              \/ op[t].ph \in {"dying", "flushing"} /\ \E m \in live : Destroy(t, m.id, m.type)
              \/ op[t].ph = "done" /\ op[t].k \notin {"stat", "name", "destroy"} /\ Ret(t, op[t].r)
              \/ op[t].k = "stat" /\ RetStat(t, SIZE, op[t].a, op[t].b)
              \/ op[t].k = "name" /\ RetName(t, op[t].a)
           /\ Log
HoldsOwn(t) == \E s \in DOMAIN lk[t] : lk[t][s].st = "held"
LockCalls(t) == \E s \in DOMAIN lk[t] :
    \/ lk[t][s].st = "absent" /\ ~HoldsOwn(t) /\ Call(t, "lk", s, 0, 0)
    \/ lk[t][s].st \in {"open", "empty"} /\ ~HoldsOwn(t) /\ Call(t, "rl", s, 0, 0)
    \/ lk[t][s].st # "absent" /\ (Call(t, "ul", s, 0, 0) \/ Call(t, "dl", s, 0, 0))
    \/ lk[t][s].st # "absent" /\ \E d \in DOMAIN lk[t] : Call(t, IF lk[t][d].st = "absent" THEN "mc" ELSE "ma", s, d, 0)
Calls == ~Destroying /\ \E t \in Threads :
    \/ nid <= MAXID /\ (\E sz \in {SZ, SZ + 8} : Call(t, "put", nid, 1, sz)) /\ nid' = nid + 1 /\ UNCHANGED <<put, taken>>
    \/ nid' = nid /\ UNCHANGED <<put, taken>> /\
         \/ ~HoldsOwn(t) /\ \E w \in {0, 1, 2, 3} : w \in KINDS /\ Call(t, "get", w, 0, 0)
         \/ STAT /\ Call(t, "stat", 0, 0, 0)
         \/ Call(t, "name", 0, 0, 0)
         \/ ABORTS /\ Call(t, "abort", 0, 0, 0)
         \/ (\A u \in Threads : op[u].ph = "idle" /\ ~HoldsOwn(u)) /\ (Call(t, "destroy", 0, 0, 0) \/ (ab = "none" /\ Call(t, "purge", 0, 0, 0)))
         \/ LockCalls(t)
\* nobody adds or dispatches while a purge is on
Purging == \E t \in Threads : op[t].k = "purge"
MCNext == (~Purging /\ Calls) \/ \E t \in Threads : Work(t)
MCSpec == MCInit /\ [][MCNext]_vars
OrderKept == Destroying \/ (taken = SubSeq(put, 1, Len(taken)) /\ q = SubSeq(put, Len(taken) + 1, Len(put)))     \* (destruction: in any order)  C15
NothingAfterAbort == [][ab = "done" => Len(q') <= Len(q)]_vars                                   \* C18
HwRises == [][hw' >= hw]_vars                                                                    \* C19
WaitsOnlyIfItMust == \A t \in Threads : op[t].ph # "idle" /\ ~ENABLED Work(t) => (MayWait(t) \/ op[t].ph \in {"flushing", "done"})   \* C15, C18
AfterDestroy == \A t \in Threads : (op[t].k = "destroy" /\ op[t].ph = "done") => live = {}       \* C16
NobodyKeptByAbort == ab = "done" => \A t \in Threads : op[t].k \in {"put", "get"} /\ op[t].ph = "called" => ENABLED Work(t)   \* C18
=============================================================================
