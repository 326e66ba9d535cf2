------------------------------ MODULE RateTrace ------------------------------
EXTENDS Rate, TraceBase
vars == <<count, pr, tr, pos>>
Init == TraceInit /\ RInit
EvCall == E.e = "c" /\ Advance /\ UNCHANGED count /\ Open(E.th, E.op, E.a, E.b)
EvRet == E.e = "r" /\ Advance /\ UNCHANGED count /\ Close(E.th, E.op, E.a, E.r)
\* every thread is blocked: nobody may still be waiting for something that has happened
EvQuiet == /\ E.e = "quiet" /\ Advance /\ UNCHANGED <<count, pr>>
           /\ \A h \in Th : pr[h].op = "none" \/ (pr[h].op \in {"until", "for"} /\ pr[h].st = 1 /\ count < pr[h].x)
EvFin == E.e = "fin" /\ Advance /\ AllIdle /\ UNCHANGED <<count, pr>>
Hidden == Stay /\ \E h \in Th : Step(h)
TNext == (More /\ (EvCall \/ EvRet \/ EvQuiet \/ EvFin \/ Hidden)) \/ (Accepting /\ UNCHANGED <<count, pr>>)
TSpec == Init /\ [][TNext]_vars
=============================================================================
