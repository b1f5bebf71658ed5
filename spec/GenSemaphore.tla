---------------------------- MODULE GenSemaphore ----------------------------
(* Behaviours of the contract to be replayed into the real Semaphore.        *)
(* The environment moves (calls an operation, or lets a running functor end) *)
(* only once everything that can happen by itself has happened.  Every pair  *)
(* (settled state, move of the environment) reachable from the start is      *)
(* printed once, with a sequence of moves that leads there.                  *)
EXTENDS Semaphore, Sequences, TLC
CONSTANTS NT, MAXA, CONFS
VARIABLE hist, conf
vars == <<semVars, hist, conf>>
view == <<semVars, conf>>
Kinds == {"take", "give", "takef", "givef", "takex", "givex", "count", "abort"}
Confs == {<<0, 0>>, <<0, 1>>, <<1, 1>>, <<1, 2>>, <<2, 2>>, <<0, 2>>}
GInit == /\ conf \in Confs /\ conf[1] + conf[2] \in CONFS /\ hist = ""
         /\ SemInit(conf[1], conf[2], conf[2] = 0, 100, 0, NT)
Auto(t) == Lin(t) \/ FunBegin(t) \/ (op[t].ph = "done" /\ Ret(t, op[t].r, op[t].c))
Settled == \A t \in Threads : ~ENABLED Auto(t)
Env(t) == \/ \E k \in Kinds : /\ k \in GiveKinds => avail < MAXA
                              /\ Call(t, k) /\ hist' = hist \o " " \o ToString(t) \o ":" \o k
          \/ /\ op[t].ph = "fun" /\ FunEnd(t, op[t].k \in {"takex", "givex"})
             /\ hist' = hist \o " " \o ToString(t) \o ":+"
GNext == /\ UNCHANGED conf
         /\ IF Settled THEN \E t \in Threads \ {0} : Env(t) /\ PrintT("WORD|" \o ToString(conf[1]) \o " " \o ToString(conf[2]) \o "|" \o hist')
                       ELSE \E t \in Threads : Auto(t) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_vars
=============================================================================
