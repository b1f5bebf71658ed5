---------------------------- MODULE MC_Semaphore ----------------------------
(* The Semaphore contract by itself: every construction with small arguments,*)
(* every program of NT threads (threads call whatever they like, forever).   *)
EXTENDS Semaphore, TLC
CONSTANTS NT, LIM
vars == semVars
Kinds == TakeKinds \cup GiveKinds \cup {"count", "abort"}
MCInit == \E i \in 0..(LIM + 1), m \in 0..(LIM + 1), u \in BOOLEAN : SemInit(i, m, u, LIM, 0, NT - 1)
Rets(t) == Ret(t, op[t].r, op[t].c)
Work(t) == Lin(t) \/ FunBegin(t) \/ (op[t].ph = "fun" /\ FunEnd(t, op[t].k \in {"takex", "givex"})) \/ (op[t].ph = "done" /\ Rets(t))
Calls == \E t \in Threads : \E k \in Kinds : Call(t, k)
MCNext == Calls \/ \E t \in Threads : Work(t)
MCSpec == MCInit /\ [][MCNext]_vars
Symm == Permutations(0..(NT - 1))
\* C02: nobody is where the contract would let it wait while it could go on
CanGo(t) == ENABLED Work(t)
WaitsOnlyIfItMust == \A t \in Threads : op[t].ph # "idle" /\ ~CanGo(t) => (MayWait(t) \/ ~Free)
\* C03: an exception undoes its operation, a completed functor operation counts once
Undone == [][\A t \in Threads : (op[t].ph = "fun" /\ op'[t].ph = "done") =>
                avail' = avail + (IF op[t].k = "givef" THEN 1 ELSE IF op[t].k = "takex" THEN 1 ELSE 0)]_vars
\* C04: abort is forever
AbortStays == [][aborted => aborted']_vars
NothingTakenAfterAbort == [][aborted => (avail' # avail => \E t \in Threads : op[t].ph = "fun")]_vars
\* C05
Clamped == cfg.max <= LIM /\ avail <= LIM
\* liveness: with every thread's own steps fair and nobody calling any more, whoever may go on does
=============================================================================
