-------------------------------- MODULE Life --------------------------------
(* One run of the daemon: it starts, works, may be paused and resumed, and  *)
(* ends when it is told to.  Signals wait until they are taken.             *)
EXTENDS Integers, FiniteSets
VARIABLES phase,     \* "off", "up", "stopping", "down"
          pend,      \* signals that were sent and not taken yet
          paused
lvars == <<phase, pend, paused>>
Pause == 10
Resume == 12
Terms == {2, 15}
LInit == phase = "off" /\ pend = {} /\ paused = FALSE
Start == phase \in {"off", "down"} /\ phase' = "up" /\ pend' = {} /\ paused' = FALSE
Send(s) == pend' = pend \cup {s} /\ UNCHANGED <<phase, paused>>
\* nothing is taken once the end has begun
Take(s) == /\ s \in pend /\ phase = "up" /\ pend' = pend \ {s}
           /\ phase' = IF s \in Terms THEN "stopping" ELSE phase
           /\ paused' = (s \in Terms \/ (paused /\ s # Resume) \/ s = Pause)
MayBegin == phase = "up" /\ ~paused
Exit == phase = "stopping" /\ phase' = "down" /\ UNCHANGED <<pend, paused>>
Dies == phase' = "down" /\ UNCHANGED <<pend, paused>>
=============================================================================
