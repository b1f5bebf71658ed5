------------------------------- MODULE GenPool ------------------------------
(* Behaviours of the pool contract, to be replayed (see GenSemaphore).       *)
(* How an object is made: its constructor throws (x), stays until let go (k) *)
(* or both (kx); its destructor stays (D); it is too large (z).              *)
EXTENDS Pool, Sequences, TLC
CONSTANTS NT, MADE, LIVE, REFS
VARIABLES hist, nid, fl, held       \* fl: how objects are made; held: [s, id], the smart pointers and where they are
vars == <<plVars, hist, nid, fl, held>>
Busy == {op[t].id : t \in {u \in Threads : op[u].k \in {"new", "drop"}}}
Ids == DOMAIN refs \cup Busy
Rank(id) == Cardinality({x \in Ids : x < id})
view == <<cfg, inuse, rc, lw, {<<Rank(id), refs[id], fl[id]>> : id \in DOMAIN refs},
          [t \in Threads |-> IF op[t].k \in {"new", "drop"} THEN <<[op[t] EXCEPT !.id = Rank(op[t].id)], fl[op[t].id]>> ELSE <<op[t], "">>]>>
ES == 8
GInit == PoolInit(2, ES, 1, FALSE, NT) /\ hist = "" /\ nid = 1 /\ fl = [i \in {0} |-> ""] /\ held = {}
Add(t, s) == hist' = hist \o " " \o ToString(t) \o ":" \o s
F(t) == fl[op[t].id]
LowestFree == CHOOSE lo \in {i * ES : i \in 0..(cfg.N - 1)} : \A o \in live : o.hi <= lo \/ lo + ES <= o.lo
Make(t) == IF F(t) \in {"x", "kx"} THEN ConstructThrows(t, op[t].id) ELSE Construct(t, op[t].id, 1, LowestFree, ES)
End(t) == \E o \in Objects(op[t].id) : Destroy(t, o.id, 1, 1)
Auto(t) == /\ UNCHANGED <<nid, fl>>
           /\ \/ /\ held' = held
                 /\ \/ Lin(t)
                    \/ op[t].ph = "making" /\ op[t].n = 0 /\ F(t) \notin {"k", "kx"} /\ Make(t)
                    \/ op[t].ph \in {"ending", "unmaking"} /\ F(t) # "D" /\ End(t)
                    \/ op[t].ph = "done" /\ op[t].k = "new" /\ RetNew(t, op[t].r, -1, 0, 0, 0, 1)
                    \/ RetDrop(t, "ok")
                    \/ RetStat(t, cfg.N, op[t].a, op[t].b)
              \/ op[t].ph = "making" /\ op[t].n = 1 /\ RetNew(t, "ok", op[t].id, 1, 0, 0, 1) /\ held' = held \cup {[s |-> op[t].id, id |-> op[t].id]}
Settled == \A t \in Threads : ~ENABLED Auto(t)
Env(t) ==
    \/ /\ Cardinality(Ids) < LIVE
       /\ \E f \in MADE : Call(t, "new", nid, 1, IF f = "z" THEN 2 * ES ELSE ES) /\ fl' = [i \in 0..nid |-> IF i = nid THEN f ELSE IF i \in DOMAIN fl THEN fl[i] ELSE ""] /\ Add(t, "n." \o f \o "." \o ToString(nid))
       /\ nid' = nid + 1 /\ UNCHANGED held
    \/ \E h \in held : Call(t, "drop", h.id, 0, 0) /\ held' = held \ {h} /\ Add(t, "d." \o ToString(h.s)) /\ UNCHANGED <<nid, fl>>
    \/ \E h \in held : /\ op[t].ph = "idle" /\ refs[h.id] < REFS /\ Share(h.id) /\ held' = held \cup {[s |-> nid, id |-> h.id]} /\ nid' = nid + 1
                       /\ fl' = [i \in 0..nid |-> IF i \in DOMAIN fl THEN fl[i] ELSE ""] /\ Add(t, "c." \o ToString(h.s) \o "." \o ToString(nid))
    \/ Call(t, "stat", 0, 0, 0) /\ Add(t, "st") /\ UNCHANGED <<nid, fl, held>>
    \/ op[t].ph = "making" /\ op[t].n = 0 /\ Make(t) /\ Add(t, "+") /\ UNCHANGED <<nid, fl, held>>
    \/ op[t].ph = "ending" /\ End(t) /\ Add(t, "+") /\ UNCHANGED <<nid, fl, held>>
GNext == IF Settled THEN \E t \in Threads \ {0} : Env(t) /\ PrintT("WORD||" \o hist')
                    ELSE \E t \in Threads : Auto(t) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_vars
=============================================================================
