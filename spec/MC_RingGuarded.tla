--------------------------- MODULE MC_RingGuarded ---------------------------
(* The RingBufferGuarded contract by itself. Values are numbered in the      *)
(* order of the puts called; got remembers what was obtained.                *)
EXTENDS RingGuarded
CONSTANTS NT, MAXV, CAPS
VARIABLES nv,      \* next value
          stored,  \* values stored so far, in order of taking effect
          got      \* values obtained so far, in order of taking effect
vars == <<rgVars, nv, stored, got>>
MCInit == /\ \E c \in CAPS, p \in BOOLEAN : RGInit(c, p, TRUE, NT - 1)
          /\ nv = 1 /\ stored = <<>> /\ got = <<>>
NewStored == IF Len(q') > Len(q) THEN Append(stored, q'[Len(q')]) ELSE stored
NewGot == IF Len(q') < Len(q) THEN Append(got, Head(q)) ELSE got
Work(t) == /\ \/ Lin(t)
              \/ (op[t].ph = "done" /\ Ret(t, op[t].r, op[t].v))
              \/ (op[t].ph = "priming" /\ PrimeCall(t, Len(q)))
              \/ (q # <<>> /\ FlushCall(t, Head(q)))
           /\ stored' = NewStored /\ got' = NewGot /\ nv' = nv
Others(t) == \A u \in Threads \ {t} : op[u].k \notin {"prime", "flush"}
Calls == \E t \in Threads :
    \/ nv <= MAXV /\ Call(t, "put", nv) /\ nv' = nv + 1 /\ UNCHANGED <<stored, got>>
    \/ \E k \in {"get", "abort"} : Call(t, k, 0) /\ UNCHANGED <<nv, stored, got>>
    \* prime: not by two threads at a time; flush: once the others have ended
    \/ Others(t) /\ nv + cap <= MAXV + 1 /\ Call(t, "prime", nv) /\ nv' = nv + cap /\ UNCHANGED <<stored, got>>
    \/ (\A u \in Threads \ {t} : op[u].ph = "idle") /\ Call(t, "flush", 0) /\ UNCHANGED <<nv, stored, got>>
MCNext == Calls \/ \E t \in Threads : Work(t)
MCSpec == MCInit /\ [][MCNext]_vars
\* C08: a queue, nothing lost, nothing twice
FIFO == stored = got \o q
Once == \A i, j \in 1..Len(stored) : i # j => stored[i] # stored[j]
\* C10
NothingBeforePrimed == (mode = "prime" /\ \A t \in Threads : op[t].k # "flush") => (got = <<>> \/ ab # "none")
NothingAfterAbort == [][ab = "done" => Len(q') <= Len(q) \/ \E t \in Threads : op[t].ph = "priming"]_vars
AbortForever == [][ab = "done" => ab' = "done"]_vars
PrimedOnce == [][mode = "ready" => mode' = "ready"]_vars
WaitsOnlyIfItMust == \A t \in Threads : op[t].ph \notin {"idle"} /\ ~ENABLED Work(t) => MayWait(t)
=============================================================================
