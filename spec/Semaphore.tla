----------------------------- MODULE Semaphore -----------------------------
(* The contract of ReiserRT::Core::Semaphore.                                *)
(*                                                                           *)
(* Every API operation is a call, an internal step at which it takes effect, *)
(* and a return.  Operations that run a user functor additionally have the   *)
(* visible steps FunBegin and FunEnd.  Counts may be given relative to a     *)
(* base (TLC integers have 32 bits): cfg.zero is the true zero.              *)
EXTENDS Integers, FiniteSets

VARIABLES
    cfg,      \* [max, lim, zero, thr]: clamped maximum, absolute limit, true zero, number of threads
    avail,    \* available count
    aborted,  \* abort has taken effect
    inF,      \* thread whose functor is running, or NoThread
    op        \* thread -> what it is doing

semVars == <<cfg, avail, aborted, inF, op>>

NoThread == -1
Idle == [k |-> "none", ph |-> "idle", r |-> "", c |-> 0]
Threads == DOMAIN op

TakeKinds == {"take", "takef", "takex", "takee"}
GiveKinds == {"give", "givef", "givex", "givee"}
FunKinds  == {"takef", "takex", "givef", "givex"}

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* C05: clamping of the constructor arguments
ClampInit(i, lim) == Min2(i, lim)
ClampMax(m, unbounded, i, lim) == IF unbounded THEN lim ELSE Min2(Max2(m, i), lim)

SemInit(i, m, unbounded, lim, zero, n) ==
    /\ avail = ClampInit(i, lim)
    /\ cfg = [max |-> ClampMax(m, unbounded, ClampInit(i, lim), lim), lim |-> lim, zero |-> zero, thr |-> n]
    /\ aborted = FALSE
    /\ inF = NoThread
    /\ op = [t \in 0..n |-> Idle]

Called(t, K) == op[t].ph = "called" /\ op[t].k \in K
Done(t, r, c) == op' = [op EXCEPT ![t] = [@ EXCEPT !.ph = "done", !.r = r, !.c = c]]

HasUnit == avail > cfg.zero
HasRoom == avail < cfg.max
AtLimit == avail = cfg.lim
Free == inF = NoThread        \* no functor is running

Call(t, k) ==
    /\ op[t].ph = "idle"
    /\ op' = [op EXCEPT ![t] = [k |-> k, ph |-> "called", r |-> "", c |-> 0]]
    /\ UNCHANGED <<cfg, avail, aborted, inF>>

\* a plain take consumes a unit
LinTake(t) ==
    /\ Called(t, {"take"}) /\ ~aborted /\ Free /\ HasUnit
    /\ avail' = avail - 1 /\ Done(t, "ok", 0)
    /\ UNCHANGED <<cfg, aborted, inF>>

\* a plain give adds one, only below the maximum
LinGive(t) ==
    /\ Called(t, {"give"}) /\ ~aborted /\ Free /\ HasRoom
    /\ avail' = avail + 1 /\ Done(t, "ok", 0)
    /\ UNCHANGED <<cfg, aborted, inF>>

\* the functor starts once the unit or the room is secured
FunBegin(t) ==
    /\ Called(t, FunKinds) /\ ~aborted /\ Free
    /\ IF op[t].k \in TakeKinds THEN HasUnit /\ avail' = avail - 1 ELSE HasRoom /\ avail' = avail
    /\ inF' = t
    /\ op' = [op EXCEPT ![t].ph = "fun"]
    /\ UNCHANGED <<cfg, aborted>>

\* it ends, normally or by an exception; an exception undoes the operation
FunEnd(t, threw) ==
    /\ op[t].ph = "fun" /\ inF = t
    /\ threw = (op[t].k \in {"takex", "givex"})
    /\ avail' = IF op[t].k \in TakeKinds THEN (IF threw THEN avail + 1 ELSE avail)
                                         ELSE (IF threw THEN avail ELSE avail + 1)
    /\ inF' = NoThread
    /\ Done(t, IF threw THEN "exn" ELSE "ok", 0)
    /\ UNCHANGED <<cfg, aborted>>

\* an empty function object is reported by std::bad_function_call, without effect
LinEmpty(t) ==
    /\ Called(t, {"takee", "givee"})
    /\ Done(t, "badfn", 0)
    /\ UNCHANGED <<cfg, avail, aborted, inF>>

LinAborted(t) ==
    /\ Called(t, TakeKinds \cup GiveKinds) /\ aborted
    /\ Done(t, "aborted", 0)
    /\ UNCHANGED <<cfg, avail, aborted, inF>>

LinOverflow(t) ==
    /\ Called(t, GiveKinds) /\ AtLimit
    /\ Done(t, "overflow", 0)
    /\ UNCHANGED <<cfg, avail, aborted, inF>>

\* a take whose functor is running may be seen as not begun; one that will throw never happens
CountsSeen == IF inF # NoThread /\ op[inF].k = "takef" THEN {avail, avail + 1}
              ELSE IF inF # NoThread /\ op[inF].k = "takex" THEN {avail + 1} ELSE {avail}

LinCount(t) ==
    /\ Called(t, {"count"})
    /\ \E c \in CountsSeen : Done(t, "ok", c)
    /\ UNCHANGED <<cfg, avail, aborted, inF>>

LinAbort(t) ==
    /\ Called(t, {"abort", "destroy"})
    /\ aborted' = TRUE /\ Done(t, "ok", 0)
    /\ UNCHANGED <<cfg, avail, inF>>

Ret(t, r, c) ==
    /\ op[t].ph = "done" /\ op[t].r = r /\ op[t].c = c
    /\ op' = [op EXCEPT ![t] = Idle]
    /\ UNCHANGED <<cfg, avail, aborted, inF>>

Lin(t) == LinTake(t) \/ LinGive(t) \/ LinEmpty(t) \/ LinAborted(t) \/ LinOverflow(t) \/ LinCount(t) \/ LinAbort(t)

\* C02/C04: when nothing moves any more, exactly the threads in Stuck are inside an operation,
\* and each of them is one that must wait. (A functor may take its time: everybody else may wait for it.)
MayWait(t) ==
    /\ op[t].ph = "called"
    /\ \/ ~Free
       \/ op[t].k \in TakeKinds /\ ~aborted /\ ~HasUnit
       \/ op[t].k \in GiveKinds /\ ~aborted /\ ~HasRoom /\ ~AtLimit
Quiescent(Stuck) ==
    /\ \A t \in Threads : IF t \in Stuck THEN MayWait(t) ELSE op[t].ph \in {"idle", "fun"}
    /\ UNCHANGED semVars

----------------------------------------------------------------------------
\* Properties of the contract itself
TypeOK == inF \in Threads \cup {NoThread} /\ aborted \in BOOLEAN
CountInRange == cfg.zero <= avail /\ avail <= cfg.max            \* C01
OneFunctor == Cardinality({t \in Threads : op[t].ph = "fun"}) <= 1  \* C03
FunctorOwner == \A t \in Threads : (op[t].ph = "fun") = (inF = t)
=============================================================================
