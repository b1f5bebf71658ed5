--------------------------- MODULE TraceMsgQueue ---------------------------
(* Recorded histories of the real MessageQueue against its contract.         *)
EXTENDS MsgQueue, Trie
vars == <<cfg, free, q, live, rc, hw, name, ab, mu, lk, op, node>>
TInit == /\ node = 1 /\ MQInit(0, 0, FALSE, 0, FALSE, 0, FALSE)
Match(e) ==
    CASE e.ev = "init" -> /\ cfg' = [N |-> e.size, esz |-> Pad(e.max), lock |-> (e.lock = 1), st |-> (e.st = 1)]
                          /\ free' = e.size /\ lk' = [t \in ThreadSet(e.n, e.v = 1) |-> [s \in 1..e.ns |-> Absent]]
                          /\ op' = [t \in ThreadSet(e.n, e.v = 1) |-> Idle]
                          /\ UNCHANGED <<q, live, rc, hw, name, ab, mu>>
      [] e.ev = "call" -> Call(e.t, e.k, e.a, e.b, e.c)
      [] e.ev = "ct"   -> e.al = 1 /\ e.good = 1 /\ Construct(e.t, e.id, e.type, e.lo, e.sz)
      [] e.ev = "cx"   -> ConstructThrows(e.t, e.id)
      [] e.ev = "wk"   -> Wake(e.t, e.thr = 1)
      [] e.ev = "nx"   -> NameThrows(e.t, e.id)
      [] e.ev = "db"   -> e.good = 1 /\ DispatchBegin(e.t, e.id)
      [] e.ev = "de"   -> e.good = 1 /\ DispatchEnd(e.t, e.id, e.thr = 1)
      [] e.ev = "dt"   -> e.good = 1 /\ Destroy(e.t, e.id, e.type)
      [] e.ev = "rets" -> RetStat(e.t, e.size, e.rc, e.hw)
      [] e.ev = "retn" -> RetName(e.t, e.c)
      [] e.ev = "ret"  -> Ret(e.t, e.r)
      [] e.ev = "q"    -> IF RelaxQ THEN UNCHANGED mqVars ELSE Quiescent(SetOf(e.s))
      [] e.ev = "gone" -> live = {} /\ UNCHANGED mqVars
      [] e.ev = "end"  -> e.bad = 0 /\ UNCHANGED mqVars
      [] OTHER -> FALSE
TNext == \/ \E t \in Threads : Lin(t) /\ UNCHANGED node
         \/ \E c \in Kids : Match(Ev[E[c]]) /\ Take(c)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
