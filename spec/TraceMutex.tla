----------------------------- MODULE TraceMutex -----------------------------
EXTENDS Mutex, Trie
vars == <<owner, op, node>>
TInit == node = 1 /\ owner = Nobody /\ op = [t \in {0} |-> Idle]
Match(e) ==
    CASE e.ev = "init" -> owner' = Nobody /\ op' = [t \in 0..e.n |-> Idle]
      [] e.ev = "call" -> Call(e.t, e.k, e.err)
      [] e.ev = "in"   -> Enter(e.t)
      [] e.ev = "out"  -> Leave(e.t)
      [] e.ev = "ret"  -> Ret(e.t, e.r, e.err)
      [] e.ev = "q"    -> IF RelaxQ THEN UNCHANGED mtxVars ELSE Quiescent(SetOf(e.s))
      [] e.ev = "pi"   -> e.cnt > 0 /\ e.pi = 1 /\ UNCHANGED mtxVars   \* every lock inherits priority
      [] e.ev = "end"  -> e.bad = 0 /\ UNCHANGED mtxVars
      [] OTHER -> FALSE
TNext == \/ \E t \in Threads : Lin(t) /\ UNCHANGED node
         \/ \E c \in Kids : Match(Ev[E[c]]) /\ Take(c)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
