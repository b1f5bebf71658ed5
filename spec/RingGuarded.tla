----------------------------- MODULE RingGuarded ----------------------------
(* The contract of ReiserRT::Core::RingBufferGuarded (C08, C09, C10): a      *)
(* bounded FIFO queue with a life cycle.                                     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
    cap,     \* requested number of elements
    q,       \* the values held, oldest first
    mode,    \* "prime": needs priming, "ready"
    ab,      \* abort: "none", "begun" (some abort has begun to take effect), "done" (complete)
    bool,    \* TRUE when put reports whether it stored its value
    op
rgVars == <<cap, q, mode, ab, bool, op>>
Idle == [k |-> "none", ph |-> "idle", r |-> "", v |-> 0, n |-> 0]
Threads == DOMAIN op

RGInit(c, willPrime, b, n) ==
    /\ cap = c /\ q = <<>> /\ ab = "none" /\ bool = b
    /\ mode = IF willPrime THEN "prime" ELSE "ready"
    /\ op = [t \in 0..n |-> Idle]

Call(t, k, v) ==
    /\ op[t].ph = "idle"
    /\ op' = [op EXCEPT ![t] = [k |-> k, ph |-> "called", r |-> "", v |-> v, n |-> 0]]
    /\ UNCHANGED <<cap, q, mode, ab, bool>>
Is(t, K) == op[t].ph = "called" /\ op[t].k \in K
Done(t, r, v) == op' = [op EXCEPT ![t] = [@ EXCEPT !.ph = "done", !.r = r, !.v = v]]

Usable == mode = "ready" /\ ab # "done"
LinPut(t) == /\ Is(t, {"put"}) /\ Usable /\ Len(q) < cap
             /\ q' = Append(q, op[t].v) /\ Done(t, "ok", 0)
             /\ UNCHANGED <<cap, mode, ab, bool>>
LinGet(t) == /\ Is(t, {"get"}) /\ Usable /\ Len(q) > 0
             /\ q' = Tail(q) /\ Done(t, "ok", Head(q))
             /\ UNCHANGED <<cap, mode, ab, bool>>
\* refusals: never an effect
LinRefuse(t) ==
    /\ Is(t, {"put", "get"})
    /\ \/ (mode = "prime" \/ ab # "none") /\ Done(t, "stateerr", 0)
       \/ ab # "none" /\ Done(t, "aborted", 0)
       \/ ab # "none" /\ op[t].k = "put" /\ Done(t, IF bool THEN "dropped" ELSE "ok", 0)
    /\ UNCHANGED <<cap, q, mode, ab, bool>>

\* abort is not atomic: operations overlapping it may still succeed
AbBegin(t) == /\ Is(t, {"abort", "destroy"})
              /\ ab' = IF ab = "none" THEN "begun" ELSE ab
              /\ op' = [op EXCEPT ![t].ph = "aborting"]
              /\ UNCHANGED <<cap, q, mode, bool>>
AbEnd(t) == /\ op[t].ph = "aborting" /\ ab' = "done" /\ Done(t, "ok", 0)
            /\ UNCHANGED <<cap, q, mode, bool>>

\* prime: one callback per index, in order; then the buffer is ready, unless aborted
PrimeRefuse(t) == /\ Is(t, {"prime"}) /\ (mode # "prime" \/ ab # "none")
                  /\ Done(t, "stateerr", 0) /\ UNCHANGED <<cap, q, mode, ab, bool>>
PrimeBegin(t) == /\ Is(t, {"prime"}) /\ mode = "prime" /\ ab = "none"
                 /\ op' = [op EXCEPT ![t].ph = "priming"] /\ UNCHANGED <<cap, q, mode, ab, bool>>
PrimeCall(t, i) ==
    /\ op[t].ph = "priming" /\ mode = "prime" /\ i = Len(q) /\ i < cap
    /\ (ab = "done" => op[t].n = 0)      \* an abort cuts it short: at most the callback about to be made
    /\ q' = Append(q, op[t].v + i)
    /\ op' = [op EXCEPT ![t].n = IF ab = "done" THEN 1 ELSE 0]
    /\ UNCHANGED <<cap, mode, ab, bool>>
PrimeEnd(t) ==
    /\ op[t].ph = "priming"
    /\ \/ Len(q) = cap /\ ab = "none" /\ mode' = "ready"
       \/ ab # "none" /\ mode' = mode
    /\ Done(t, "ok", 0) /\ UNCHANGED <<cap, q, ab, bool>>

\* flush: only after abort; hands over what is held, in order
FlushRefuse(t) == Is(t, {"flush"}) /\ ab # "done" /\ Done(t, "stateerr", 0) /\ UNCHANGED <<cap, q, mode, ab, bool>>
FlushCall(t, v) ==
    /\ Is(t, {"flush"}) /\ ab # "none" /\ q # <<>> /\ v = Head(q) /\ q' = Tail(q)
    /\ UNCHANGED <<cap, mode, ab, bool, op>>
FlushEnd(t) == Is(t, {"flush"}) /\ ab # "none" /\ q = <<>> /\ Done(t, "ok", 0) /\ UNCHANGED <<cap, q, mode, ab, bool>>

Ret(t, r, v) == /\ op[t].ph = "done" /\ op[t].r = r /\ (op[t].k = "get" => op[t].v = v)
                /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED <<cap, q, mode, ab, bool>>

Lin(t) == LinPut(t) \/ LinGet(t) \/ LinRefuse(t) \/ AbBegin(t) \/ AbEnd(t) \/ PrimeRefuse(t) \/ PrimeBegin(t)
          \/ PrimeEnd(t) \/ FlushRefuse(t) \/ FlushEnd(t)

MayWait(t) == /\ op[t].ph = "called" /\ ab = "none" /\ mode = "ready"
              /\ \/ op[t].k = "get" /\ q = <<>>
                 \/ op[t].k = "put" /\ Len(q) = cap
Quiescent(Stuck) == (\A t \in Threads : IF t \in Stuck THEN MayWait(t) ELSE op[t].ph \in {"idle", "priming"}) /\ UNCHANGED rgVars   \* (a priming function may take its time)

----------------------------------------------------------------------------
Bounded == Len(q) <= cap                                   \* C08
ReadyMeansPrimed == \A t \in Threads : op[t].ph = "priming" => mode = "prime"
=============================================================================
