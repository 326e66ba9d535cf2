----------------------------- MODULE LifeTrace -----------------------------
EXTENDS Life, TraceBase
VARIABLES rested,    \* paused, and long enough for everything to have come to rest
          since      \* when the end was asked for, when that was noticed
vars == <<lvars, rested, since, tr, pos>>
Init == TraceInit /\ LInit /\ rested = FALSE /\ since = <<0, 0>>
Soon == 60          \* seconds
Eventually == 600
EvStart == E.e = "start" /\ Start /\ rested' = FALSE /\ since' = <<0, 0>>
EvSend == /\ E.e = "sig" /\ Send(E.n) /\ UNCHANGED rested
          /\ since' = IF E.n \in Terms /\ pend \cap Terms = {} /\ phase = "up" THEN <<E.s, 0>> ELSE since
EvTake == /\ E.e = "take" /\ Holds(phase = "up") /\ Take(E.n) /\ rested' = (rested /\ E.n # Resume)
          /\ since' = IF E.n \in Terms THEN <<since[1], E.s>> ELSE since
EvRest == E.e = "rest" /\ rested' = paused /\ UNCHANGED <<lvars, since>>
EvWork == E.e = "work" /\ Holds(~rested) /\ UNCHANGED <<lvars, rested, since>>
EvExit == /\ E.e = "exit" /\ Holds(phase = "stopping" /\ E.st = 0)
          /\ Holds(Meta.timed = 1 => E.s - since[2] <= Soon /\ E.s - since[1] <= Eventually)
          /\ Exit /\ UNCHANGED <<rested, since>>
EvCrash == E.e = "crash" /\ Dies /\ UNCHANGED <<rested, since>>
\* "bad" (deadlock, endless activity, death, return from main) is explained by nothing
TNext == \/ More /\ Advance /\ (EvStart \/ EvSend \/ EvTake \/ EvRest \/ EvWork \/ EvExit \/ EvCrash)
         \/ Accepting /\ UNCHANGED <<lvars, rested, since>>
TSpec == Init /\ [][TNext]_vars
=============================================================================
