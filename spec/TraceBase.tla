----------------------------- MODULE TraceBase -----------------------------
(* Shared by every trace-validation module: which trace, and how far.      *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, pos
Ev == Traces[tr].ev
E == Ev[pos]
Meta == Traces[tr].ev[1]          \* the first event carries the parameters
TraceInit == tr \in 1..Len(Traces) /\ pos = 2
Advance == pos' = pos + 1 /\ UNCHANGED tr
Stay == UNCHANGED <<tr, pos>>
\* a condition, not a choice: TLC must not branch on its disjunctions
Holds(c) == c = TRUE
More == pos <= Len(Ev)
Accepting == /\ pos = Len(Ev) + 1
             /\ PrintT(<<"ACCEPT", Traces[tr].id>>)
             /\ pos' = pos + 1 /\ UNCHANGED tr
\* used on a single rejected trace, with one worker: how far some behaviour gets
HighWater == (pos > TLCGet(1)) => (TLCSet(1, pos) /\ PrintT(<<"POS", pos>>))
ASSUME TLCSet(1, 0)
=============================================================================
