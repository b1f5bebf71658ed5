----------------------------- MODULE TracePool -----------------------------
EXTENDS Pool, Trie
vars == <<cfg, inuse, rc, lw, live, refs, op, node>>
TInit == /\ node = 1 /\ cfg = [N |-> 0, esz |-> 0, epb |-> 1, scal |-> FALSE] /\ inuse = 0 /\ rc = 0 /\ lw = 0 /\ live = {}
         /\ refs = NoRefs /\ op = [t \in {0} |-> Idle]
Match(e) ==
    CASE e.ev = "init" -> /\ cfg' = [N |-> SizeFor(e.req), esz |-> Pad(e.esz), epb |-> e.epb, scal |-> (e.scal = 1)]
                          /\ inuse' = 0 /\ rc' = SizeFor(e.req) /\ lw' = SizeFor(e.req) /\ live' = {} /\ refs' = NoRefs
                          /\ op' = [t \in 0..e.n |-> Idle]
      [] e.ev = "sz"   -> e.size = cfg.N /\ UNCHANGED plVars
      [] e.ev = "call" -> Call(e.t, e.k, e.id, e.type, e.sz)
      [] e.ev = "ct"   -> e.al = 1 /\ e.good = 1 /\ Construct(e.t, e.id, e.type, e.lo, e.sz)
      [] e.ev = "cx"   -> ConstructThrows(e.t, e.id)
      [] e.ev = "dt"   -> Destroy(e.t, e.id, e.type, e.good)
      [] e.ev = "rd"   -> Intact(e.good)
      [] e.ev = "share" -> Share(e.id)
      [] e.ev = "rets" -> RetStat(e.t, e.size, e.rc, e.lw)
      [] e.ev = "ret"  -> RetNew(e.t, e.r, e.got, e.num, e.lo, e.sz, e.zero) \/ RetDrop(e.t, e.r)
      [] e.ev = "q"    -> IF RelaxQ THEN UNCHANGED plVars ELSE Quiescent(SetOf(e.s))
      [] e.ev = "gone" -> inuse = 0 /\ live = {} /\ UNCHANGED plVars
      [] e.ev = "end"  -> e.bad = 0 /\ UNCHANGED plVars
      [] OTHER -> FALSE
TNext == \/ \E t \in Threads : Lin(t) /\ UNCHANGED node
         \/ \E c \in Kids : Match(Ev[E[c]]) /\ Take(c)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
