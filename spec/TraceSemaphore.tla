--------------------------- MODULE TraceSemaphore ---------------------------
(* Recorded histories of the real Semaphore against its contract.            *)
EXTENDS Semaphore, Trie
vars == <<cfg, avail, aborted, inF, op, node>>

TInit == /\ node = 1
         /\ cfg = [max |-> 0, lim |-> 0, zero |-> 0, thr |-> 0] /\ avail = 0 /\ aborted = FALSE
         /\ inF = NoThread /\ op = [t \in {0} |-> Idle]

Match(e) ==
    CASE e.ev = "init" ->
            LET n == e.n  i == ClampInit(e.i, e.lim) IN
            /\ node = 1
            /\ cfg' = [max |-> ClampMax(e.m, e.unb = 1, i, e.lim), lim |-> e.lim, zero |-> e.zero, thr |-> n]
            /\ avail' = i /\ aborted' = FALSE /\ inF' = NoThread
            /\ op' = [t \in 0..n |-> Idle]
      [] e.ev = "call" -> Call(e.t, e.k)
      [] e.ev = "fb"   -> FunBegin(e.t)
      [] e.ev = "fe"   -> FunEnd(e.t, e.x = 1)
      [] e.ev = "ret"  -> Ret(e.t, e.r, e.c)
      [] e.ev = "q"    -> IF RelaxQ THEN UNCHANGED semVars ELSE Quiescent(SetOf(e.s))
      [] e.ev = "end"  -> e.bad = 0 /\ UNCHANGED semVars
      [] OTHER -> FALSE

TNext == \/ \E t \in Threads : Lin(t) /\ UNCHANGED node
         \/ \E c \in Kids : Match(Ev[E[c]]) /\ Take(c)

TSpec == TInit /\ [][TNext]_vars
=============================================================================
