-------------------------------- MODULE Trie --------------------------------
(* Recorded histories of the implementation, merged into a trie.             *)
(* Node 1 is the root; the children of node n are KO[n] .. KO[n]+KC[n]-1;     *)
(* the edge into node n carries event Ev[E[n]].  A node without children     *)
(* ends a history.                                                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
LOCAL T == JsonDeserialize(IOEnv.TRIE)
Ev == T.ev
E  == T.e
KO == T.ko
KC == T.kc
Diag == IOEnv.DIAG = "1"
\* for the diagnosis of a rejected history only: what else is wrong if a wrong quiescence is waived
RelaxQ == IOEnv.RELAX = "q"
SetOf(s) == {s[i] : i \in 1..Len(s)}
VARIABLE node
Kids == KO[node]..(KO[node] + KC[node] - 1)
AtEnd == KC[node] = 0
\* consume one event; the trace module says what the event means
Take(c) == /\ node' = c
           /\ (IF KC[c] = 0 THEN PrintT(<<"ACC", c>>) ELSE TRUE)
           /\ (IF Diag THEN PrintT(<<"AT", c>>) ELSE TRUE)
=============================================================================
