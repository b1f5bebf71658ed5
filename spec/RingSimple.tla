----------------------------- MODULE RingSimple -----------------------------
(* The contract of RingBufferSimple (C07), and of RingBufferGuarded used by  *)
(* one thread.  The k-th value put is the ticket k modulo M, so the contents *)
(* are determined by how many are held and which ticket is the oldest.       *)
EXTENDS Integers
VARIABLES
    kind,    \* "simple" or "guarded"
    req,     \* requested number of elements
    M,       \* tickets are counted modulo M
    held,    \* number of values held
    oldest,  \* ticket of the oldest value held
    life     \* "prime", "ready", "aborted"
rsVars == <<kind, req, M, held, oldest, life>>

MaxElements == 1048576
RECURSIVE Pow2Ceil(_, _)
Pow2Ceil(n, p) == IF p >= n THEN p ELSE Pow2Ceil(n, 2 * p)
Clamp(n) == IF n < 2 THEN 2 ELSE IF n > MaxElements THEN MaxElements ELSE n
SizeFor(n) == Pow2Ceil(Clamp(n), 2)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Capacity == IF kind = "simple" THEN SizeFor(req) ELSE req

Newest == (oldest + held) % M
PutRun(n, first) == /\ life = "ready" /\ held + n <= Capacity /\ first = Newest
                    /\ held' = held + n /\ UNCHANGED <<kind, req, M, oldest, life>>
\* c times: n values are put, then the same n obtained
Cycles(c, n, first) == /\ life = "ready" /\ held = 0 /\ n <= Capacity /\ first = Newest
                       /\ oldest' = (oldest + ((c * n) % M)) % M /\ UNCHANGED <<kind, req, M, held, life>>
PutOverflow(n)   == kind = "simple" /\ held = Capacity /\ UNCHANGED rsVars
GetRun(n, first) == /\ life = "ready" /\ n <= held /\ first = oldest
                    /\ held' = held - n /\ oldest' = (oldest + n) % M /\ UNCHANGED <<kind, req, M, life>>
GetUnderflow(n)  == kind = "simple" /\ held = 0 /\ UNCHANGED rsVars
Refused          == kind = "guarded" /\ life # "ready" /\ UNCHANGED rsVars
\* the reported dimensions agree with each other and with the request
Dimensions(size, mask, bits) == size = SizeFor(req) /\ mask = size - 1 /\ bits = Log2(size) /\ UNCHANGED rsVars
Prime(n, bad) == /\ kind = "guarded" /\ life = "prime" /\ n = req /\ bad = 0 /\ life' = "ready" /\ held' = held + n
                 /\ UNCHANGED <<kind, req, M, oldest>>
PrimeRefused == kind = "guarded" /\ life # "prime" /\ UNCHANGED rsVars
Abort == kind = "guarded" /\ life' = "aborted" /\ UNCHANGED <<kind, req, M, held, oldest>>
Flush(n, first, bad) == /\ life = "aborted" /\ n = held /\ bad = 0 /\ (n > 0 => first = oldest)
                        /\ held' = 0 /\ oldest' = Newest /\ UNCHANGED <<kind, req, M, life>>
FlushRefused == kind = "guarded" /\ life # "aborted" /\ UNCHANGED rsVars
\* a single thread that is stuck: only on a full or empty guarded buffer
Stuck(what) == kind = "guarded" /\ life = "ready" /\ held = (IF what = "put" THEN Capacity ELSE 0) /\ UNCHANGED rsVars

Bounded == held >= 0 /\ (kind \in {"simple", "guarded"} => held <= Capacity)
=============================================================================
