------------------------------- MODULE Mutex --------------------------------
(* The contract of ReiserRT::Core::Mutex (C06).                              *)
EXTENDS Integers, FiniteSets
VARIABLES owner, op
mtxVars == <<owner, op>>
Nobody == -1
Idle == [k |-> "none", ph |-> "idle", r |-> "", err |-> 0]
Threads == DOMAIN op

MtxInit(n) == owner = Nobody /\ op = [t \in 0..n |-> Idle]

Call(t, k, err) ==
    /\ op[t].ph = "idle"
    /\ op' = [op EXCEPT ![t] = [k |-> k, ph |-> "called", r |-> "", err |-> err]]
    /\ UNCHANGED owner
Is(t, K) == op[t].ph = "called" /\ op[t].k \in K
Done(t, r) == op' = [op EXCEPT ![t] = [@ EXCEPT !.ph = "done", !.r = r]]

DoneErr(t, e) == op' = [op EXCEPT ![t] = [@ EXCEPT !.ph = "done", !.r = "syserr", !.err = e]]

LinLock(t)    == Is(t, {"lock"}) /\ owner = Nobody /\ owner' = t /\ Done(t, "ok")
LinTry(t)     == Is(t, {"try"}) /\ IF owner = Nobody THEN owner' = t /\ Done(t, "true")
                                                     ELSE owner' = owner /\ Done(t, "false")
LinUnlock(t)  == Is(t, {"unlock"}) /\ IF owner = t THEN owner' = Nobody /\ Done(t, "ok")
                                                   ELSE owner' = owner /\ DoneErr(t, 1)   \* EPERM
\* scoped sections: std::lock_guard / std::unique_lock(try_to_lock); the section itself is visible
Enter(t)      == Is(t, {"g", "u"}) /\ owner = Nobody /\ owner' = t /\ op' = [op EXCEPT ![t].ph = "in"]
Leave(t)      == op[t].ph = "in" /\ owner = t /\ owner' = owner /\ op' = [op EXCEPT ![t].ph = "out"]
LinLeave(t)   == op[t].ph = "out" /\ owner' = Nobody /\ Done(t, IF op[t].k = "g" THEN "ok" ELSE "true")
LinMiss(t)    == Is(t, {"u"}) /\ owner # Nobody /\ owner' = owner /\ Done(t, "false")
\* the platform reports an error: std::system_error, ownership unchanged (EBUSY of a try is an answer, not an error)
EBUSY == 16
LinError(t)   == /\ Is(t, {"elock", "etry", "eunlock"}) /\ owner' = owner
                 /\ IF op[t].k = "etry" /\ op[t].err = EBUSY THEN Done(t, "false") ELSE Done(t, "syserr")
Lin(t) == LinLock(t) \/ LinTry(t) \/ LinUnlock(t) \/ LinLeave(t) \/ LinMiss(t) \/ LinError(t)

Ret(t, r, err) ==
    /\ op[t].ph = "done" /\ op[t].r = r /\ (r = "syserr" => err = op[t].err)
    /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED owner

MayWait(t) == op[t].ph = "called" /\ op[t].k \in {"lock", "g"} /\ owner # Nobody
Quiescent(Stuck) == (\A t \in Threads : IF t \in Stuck THEN MayWait(t) ELSE op[t].ph \in {"idle", "in"}) /\ UNCHANGED mtxVars   \* (a section may take its time)

\* C06
Exclusion == Cardinality({t \in Threads : op[t].ph \in {"in", "out"}}) <= 1
SectionOwned == \A t \in Threads : op[t].ph \in {"in", "out"} => owner = t
=============================================================================
