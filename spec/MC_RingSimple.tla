---------------------------- MODULE MC_RingSimple ---------------------------
EXTENDS RingSimple
CONSTANTS REQS, MM
MCInit == /\ kind \in {"simple", "guarded"} /\ req \in REQS /\ M = MM /\ held = 0 /\ oldest = 0
          /\ life \in (IF kind = "simple" THEN {"ready"} ELSE {"prime", "ready"})
MCNext == \/ \E n \in 1..(Capacity + 1) : PutRun(n, Newest) \/ PutOverflow(n) \/ GetRun(n, oldest) \/ GetUnderflow(n)
                                          \/ (\E c \in 1..3 : Cycles(c, n, Newest)) \/ Prime(n, 0) \/ (life = "aborted" /\ Flush(held, oldest, 0))
          \/ Abort \/ Refused \/ PrimeRefused \/ FlushRefused \/ Stuck("put") \/ Stuck("get")
MCSpec == MCInit /\ [][MCNext]_rsVars
\* C07: the size is the least power of two that is enough, within 2 and 2^20
SizeRight == LET s == SizeFor(req) IN /\ \E b \in 1..20 : s = 2 ^ b
                                      /\ (req <= MaxElements => s >= req) /\ (s = 2 \/ s \div 2 < req) /\ s = 2 ^ Log2(s)
TicketsRight == oldest \in 0..(M - 1) /\ Newest \in 0..(M - 1)
FullOrNot == kind = "simple" => (held = Capacity => ~ENABLED PutRun(1, Newest)) /\ (held = 0 => ~ENABLED GetRun(1, oldest))
=============================================================================
