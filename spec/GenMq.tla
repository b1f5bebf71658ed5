-------------------------------- MODULE GenMq -------------------------------
(* Behaviours of the MessageQueue contract, to be replayed (see              *)
(* GenSemaphore). Flags of a message: its constructor throws (c), stays      *)
(* until let go (k) or both (kc); its dispatch throws (d), stays (g) or both *)
(* (gd); its name throws (n). A wakeup functor may stay as well (w = 4).     *)
EXTENDS MsgQueue, TLC
CONSTANTS NT, SIZES, LOCK, NS, FLAGS, GETS, MISC
VARIABLES hist, nid, fl
vars == <<mqVars, hist, nid, fl>>
Obtained(t) == op[t].k \in {"put", "get", "purge"} /\ op[t].ph \notin {"idle", "done"} /\ (op[t].k = "put" \/ op[t].ph # "called")
OpView(t) == <<op[t].k, op[t].ph, op[t].r, IF Obtained(t) \/ (op[t].k = "put" /\ op[t].ph = "called") THEN fl[op[t].id] ELSE ToString(op[t].id),
               op[t].type, IF op[t].k = "name" THEN 0 ELSE op[t].a, op[t].rel, op[t].nm>>
view == <<cfg, free, [i \in 1..Len(q) |-> fl[q[i]]], rc, hw, ab, mu, lk, [t \in Threads |-> OpView(t)]>>
SZ == 8
GInit == \E s \in SIZES : MQInit(s, SZ, LOCK, NT, FALSE, NS, FALSE) /\ hist = "" /\ nid = 1 /\ fl = [i \in {0} |-> ""]
Add(t, s) == hist' = hist \o " " \o ToString(t) \o ":" \o s
F(t) == fl[op[t].id]
LowestFree == CHOOSE lo \in {i * SZ : i \in 0..(cfg.N - 1)} : \A m \in live : m.hi <= lo \/ lo + SZ <= m.lo
Make(t) == IF F(t) \in {"c", "kc"} THEN ConstructThrows(t, op[t].id) ELSE Construct(t, op[t].id, 1, LowestFree, SZ)
Auto(t) ==
    \/ Lin(t)
    \/ op[t].ph = "making" /\ F(t) \notin {"k", "kc"} /\ Make(t)
    \/ op[t].ph = "got" /\ op[t].type = 0 /\ Wake(t, op[t].a = 2)
    \/ op[t].ph = "woken" /\ IF F(t) = "n" THEN NameThrows(t, op[t].id) ELSE DispatchBegin(t, op[t].id)
    \/ op[t].ph = "dispatching" /\ F(t) \notin {"g", "gd"} /\ DispatchEnd(t, op[t].id, F(t) = "d")
    \/ op[t].ph = "dying" /\ Destroy(t, op[t].id, 1)
    \/ op[t].ph = "done" /\ Ret(t, op[t].r)
    \/ op[t].ph = "done" /\ op[t].k = "stat" /\ RetStat(t, cfg.N, op[t].a, op[t].b)
    \/ op[t].ph = "done" /\ op[t].k = "name" /\ RetName(t, op[t].a)
\* a name that throws is not set
AutoOk(t) == Auto(t) /\ ~(op[t].ph = "woken" /\ F(t) = "n" /\ op'[t].nm)
Settled == \A t \in Threads : ~ENABLED AutoOk(t)
Holds(t) == \E s \in DOMAIN lk[t] : lk[t][s].st = "held"
D(s) == ToString(s - 1)
LockCalls(t) == \E s \in DOMAIN lk[t] :
    \/ lk[t][s].st = "absent" /\ ~Holds(t) /\ Call(t, "lk", s, 0, 0) /\ Add(t, "lk." \o D(s))
    \/ lk[t][s].st \in {"open", "empty"} /\ ~Holds(t) /\ Call(t, "rl", s, 0, 0) /\ Add(t, "rl." \o D(s))
    \/ lk[t][s].st # "absent" /\ ((Call(t, "ul", s, 0, 0) /\ Add(t, "ul." \o D(s))) \/ (Call(t, "dl", s, 0, 0) /\ Add(t, "dl." \o D(s))))
    \/ lk[t][s].st # "absent" /\ \E d \in DOMAIN lk[t] : LET k == IF lk[t][d].st = "absent" THEN "mc" ELSE "ma" IN
          Call(t, k, s, d, 0) /\ Add(t, k \o "." \o D(s) \o "." \o D(d))
AllIdle == \A u \in Threads : op[u].ph = "idle"
Env(t) ==
    \/ \E f \in FLAGS : Call(t, "put", nid, 1, SZ) /\ nid' = nid + 1 /\ fl' = [i \in 0..nid |-> IF i = nid THEN f ELSE fl[i]] /\ Add(t, "e." \o f)
    \/ /\ UNCHANGED <<nid, fl>>
       /\ \/ ~Holds(t) /\ \E w \in GETS : Call(t, "get", IF w = 4 THEN 1 ELSE w, IF w = 4 THEN 1 ELSE 0, 0) /\ Add(t, "g." \o ToString(w))
          \/ "abort" \in MISC /\ ab = "none" /\ Call(t, "abort", 0, 0, 0) /\ Add(t, "ab")
          \/ "stat" \in MISC /\ Call(t, "stat", 0, 0, 0) /\ Add(t, "st")
          \/ "name" \in MISC /\ Call(t, "name", 0, 0, 0) /\ Add(t, "nm")
          \/ "purge" \in MISC /\ AllIdle /\ Call(t, "purge", 0, 0, 0) /\ Add(t, "purge")
          \/ LockCalls(t)
          \/ op[t].ph = "making" /\ Make(t) /\ Add(t, "+")
          \/ op[t].ph = "got" /\ Wake(t, FALSE) /\ Add(t, "+")
          \/ op[t].ph = "dispatching" /\ DispatchEnd(t, op[t].id, F(t) = "gd") /\ Add(t, "+")
GNext == IF Settled THEN \E t \in Threads \ {0} : Env(t) /\ PrintT("WORD|" \o ToString(cfg.N) \o " " \o ToString(IF LOCK THEN 1 ELSE 0) \o "|" \o hist')
                    ELSE \E t \in Threads : AutoOk(t) /\ UNCHANGED <<hist, nid, fl>>
GSpec == GInit /\ [][GNext]_vars
=============================================================================
