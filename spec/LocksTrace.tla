----------------------------- MODULE LocksTrace -----------------------------
EXTENDS Locks, TraceBase
vars == <<cnt, own, cap, pr, mine, tr, pos>>
Init == TraceInit /\ LInit(Meta.cap) /\ mine = << >>
Obj == UNCHANGED <<cnt, own, cap>>
EvCall == E.e = "c" /\ Advance /\ Obj /\ Open(E.th, E.op, E.a, E.b)
EvRet == E.e = "r" /\ Advance /\ Obj /\ Close(E.th, E.op, E.a, E.r)
EvFin == E.e = "fin" /\ Advance /\ AllIdle /\ own = {} /\ Obj /\ UNCHANGED pr
\* every thread that has not finished is waiting: none of them may be waiting for nothing
EvCalm == E.e = "calm" /\ Advance /\ (\A h \in Th : ~ENABLED Step(h)) /\ Obj /\ UNCHANGED pr
Hidden == Stay /\ \E h \in Th : Step(h)
TNext == UNCHANGED mine /\ ((More /\ (EvCall \/ EvRet \/ EvFin \/ EvCalm \/ Hidden)) \/ (Accepting /\ Obj /\ UNCHANGED pr))
TSpec == Init /\ [][TNext]_vars
=============================================================================
