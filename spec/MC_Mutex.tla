------------------------------ MODULE MC_Mutex ------------------------------
EXTENDS Mutex
CONSTANT NT
MCInit == MtxInit(NT - 1)
Kinds == {"lock", "try", "unlock", "g", "u"}
Work(t) == Lin(t) \/ Enter(t) \/ Leave(t) \/ (op[t].ph = "done" /\ Ret(t, op[t].r, op[t].err))
MCNext == \E t \in Threads : Work(t) \/ (\E k \in Kinds : Call(t, k, 0)) \/ (\E k \in {"elock", "etry", "eunlock"}, e \in {1, EBUSY} : Call(t, k, e))
MCSpec == MCInit /\ [][MCNext]_mtxVars
\* ownership moves only from nobody to one and back
Handover == [][owner' # owner => (owner = Nobody \/ owner' = Nobody)]_mtxVars
OnlyOwnerReleases == [][\A t \in Threads : (owner = t /\ owner' = Nobody) => op'[t] # op[t]]_mtxVars
ErrorsChangeNothing == [][\A t \in Threads : (op[t].ph = "called" /\ op'[t].ph = "done" /\ op'[t].r = "syserr") => owner' = owner]_mtxVars
WaitsOnlyIfItMust == \A t \in Threads : op[t].ph \notin {"idle"} /\ ~ENABLED Work(t) => MayWait(t)
=============================================================================
