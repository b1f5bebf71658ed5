-------------------------- MODULE TraceRingGuarded --------------------------
EXTENDS RingGuarded, Trie
vars == <<cap, q, mode, ab, bool, op, node>>
TInit == node = 1 /\ cap = 0 /\ q = <<>> /\ mode = "ready" /\ ab = "none" /\ bool = FALSE /\ op = [t \in {0} |-> Idle]
Match(e) ==
    CASE e.ev = "init" -> /\ cap' = e.cap /\ q' = <<>> /\ ab' = "none" /\ bool' = (e.b = 1)
                          /\ mode' = IF e.prime = 1 THEN "prime" ELSE "ready"
                          /\ op' = [t \in 0..e.n |-> Idle]
      [] e.ev = "call" -> Call(e.t, e.k, e.v)
      [] e.ev = "pc"   -> PrimeCall(e.t, e.i)
      [] e.ev = "fc"   -> FlushCall(e.t, e.v)
      [] e.ev = "ret"  -> Ret(e.t, e.r, e.v)
      [] e.ev = "q"    -> IF RelaxQ THEN UNCHANGED rgVars ELSE Quiescent(SetOf(e.s))
      [] e.ev = "end"  -> e.bad = 0 /\ UNCHANGED rgVars
      [] OTHER -> FALSE
TNext == \/ \E t \in Threads : Lin(t) /\ UNCHANGED node
         \/ \E c \in Kids : Match(Ev[E[c]]) /\ Take(c)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
