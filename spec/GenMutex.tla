------------------------------ MODULE GenMutex ------------------------------
(* Behaviours of the Mutex contract, to be replayed (see GenSemaphore).      *)
(* g and u are scoped sections that last until the environment ends them.    *)
EXTENDS Mutex, Sequences, TLC
CONSTANTS NT, KINDS
VARIABLE hist
vars == <<mtxVars, hist>>
view == mtxVars
GInit == MtxInit(NT) /\ hist = ""
Auto(t) == Lin(t) \/ Enter(t) \/ (op[t].ph = "done" /\ Ret(t, op[t].r, op[t].err))
Settled == \A t \in Threads : ~ENABLED Auto(t)
Add(t, s) == hist' = hist \o " " \o ToString(t) \o ":" \o s
Env(t) == \/ \E k \in KINDS : /\ (k \in {"lock", "g", "try", "u"} => owner # t)
                              /\ Call(t, k, IF k = "etry" THEN EBUSY ELSE IF k \in {"elock", "eunlock"} THEN 22 ELSE 0) /\ Add(t, k)
          \/ Leave(t) /\ Add(t, "+")
GNext == IF Settled THEN \E t \in Threads \ {0} : Env(t) /\ PrintT("WORD||" \o hist')
                    ELSE \E t \in Threads : Auto(t) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_vars
=============================================================================
