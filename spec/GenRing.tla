------------------------------- MODULE GenRing ------------------------------
(* Behaviours of the RingBufferGuarded contract, to be replayed (see         *)
(* GenSemaphore). A priming function stays in each of its calls until the    *)
(* environment lets it return. pos: values stored so far, modulo the array.  *)
EXTENDS RingGuarded, TLC
CONSTANTS NT, CAPS, POS
VARIABLES hist, pos, inside, built   \* inside: threads within their priming function; built: for priming?
vars == <<rgVars, hist, pos, inside, built>>
view == <<cap, built, Len(q), mode, ab, pos, inside, [t \in Threads |-> [op[t] EXCEPT !.v = 0]]>>
GInit == \E c \in CAPS, p \in BOOLEAN : RGInit(c, p, TRUE, NT) /\ hist = "" /\ built = p /\ pos = 0 /\ inside = {}
Add(t, s) == hist' = hist \o " " \o ToString(t) \o ":" \o s
Auto(t) == /\ t \notin inside
           /\ \/ Lin(t) /\ inside' = inside
              \/ op[t].ph = "done" /\ Ret(t, op[t].r, op[t].v) /\ inside' = inside
              \/ op[t].ph = "priming" /\ PrimeCall(t, Len(q)) /\ inside' = inside \cup {t}
              \/ q # <<>> /\ FlushCall(t, Head(q)) /\ inside' = inside
           /\ pos' = IF Len(q') > Len(q) THEN (pos + 1) % POS ELSE pos
Settled == \A t \in Threads : ~ENABLED Auto(t)
Others(t) == \A u \in Threads \ {t} : op[u].k \notin {"prime", "flush"}
Env(t) == \/ t \in inside /\ inside' = inside \ {t} /\ Add(t, "+") /\ UNCHANGED rgVars
          \/ /\ inside' = inside
             /\ \/ \E k \in {"get", "put", "abort"} : Call(t, k, 0) /\ Add(t, k)
                \/ Others(t) /\ Call(t, "prime", 0) /\ Add(t, "prime")
                \/ (\A u \in Threads \ {t} : op[u].ph = "idle") /\ Call(t, "flush", 0) /\ Add(t, "flush")
GNext == /\ built' = built
         /\ IF Settled THEN \E t \in Threads \ {0} : Env(t) /\ pos' = pos /\ PrintT("WORD|" \o ToString(cap) \o " " \o ToString(IF built THEN 1 ELSE 0) \o "|" \o hist')
                       ELSE \E t \in Threads : Auto(t) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_vars
=============================================================================
