--------------------------- MODULE TraceRingSimple --------------------------
EXTENDS RingSimple, Trie
vars == <<kind, req, M, held, oldest, life, node>>
TInit == node = 1 /\ kind = "none" /\ req = 0 /\ M = 1 /\ held = 0 /\ oldest = 0 /\ life = "ready"
Match(e) ==
    CASE e.ev = "init" -> /\ kind' = e.kind /\ req' = e.req /\ M' = e.m /\ held' = 0 /\ oldest' = 0
                          /\ life' = IF e.prime = 1 THEN "prime" ELSE "ready"
      [] e.ev = "sz"   -> Dimensions(e.size, e.mask, e.bits)
      [] e.ev = "P"    -> CASE e.r = "ok" -> PutRun(e.n, e.first) \/ (life = "aborted" /\ kind = "guarded" /\ UNCHANGED rsVars)
                            [] e.r = "over" -> PutOverflow(e.n)
                            [] e.r = "state" -> Refused
                            [] e.r = "aborted" -> Refused /\ life = "aborted"
                            [] OTHER -> FALSE
      [] e.ev = "G"    -> CASE e.r = "ok" -> GetRun(e.n, e.first)
                            [] e.r = "under" -> GetUnderflow(e.n)
                            [] e.r = "state" -> Refused
                            [] e.r = "aborted" -> Refused /\ life = "aborted"
                            [] OTHER -> FALSE
      [] e.ev = "C"    -> Cycles(e.c, e.n, e.first)
      [] e.ev = "prime" -> IF e.r = "ok" THEN Prime(e.n, e.bad) ELSE e.r = "state" /\ e.n = 0 /\ PrimeRefused
      [] e.ev = "abort" -> Abort
      [] e.ev = "flush" -> IF e.r = "ok" THEN Flush(e.n, e.first, e.bad) ELSE e.r = "state" /\ e.n = 0 /\ FlushRefused
      [] e.ev = "stuck" -> Stuck(e.what)
      [] e.ev = "q"    -> UNCHANGED rsVars
      [] e.ev = "end"  -> e.bad = 0 /\ UNCHANGED rsVars
      [] OTHER -> FALSE
TNext == \E c \in Kids : Match(Ev[E[c]]) /\ Take(c)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
