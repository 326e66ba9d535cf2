----------------------------- MODULE CacheTrace -----------------------------
EXTENDS Cache, TraceBase
vars == <<lst, maxn, klock, pr, nv, tr, pos>>
Init == TraceInit /\ CInit(Meta.max) /\ nv = 0
Obj == UNCHANGED <<lst, maxn, klock>>
EvCall == E.e = "c" /\ Advance /\ Obj /\ Open(E.th, E.op, E.a, E.b)
EvRet == E.e = "r" /\ Advance /\ Obj /\ Close(E.th, E.op, E.a, E.r)
EvCs == E.e = "cs" /\ Advance /\ E.a = K(E.th) /\ ComputeStart(E.th)
EvCe == /\ E.e = "ce" /\ Advance /\ E.a = K(E.th)
        /\ IF E.b = 0 THEN ComputeThrow(E.th) ELSE ComputeEnd(E.th, E.b)
EvFin == E.e = "fin" /\ Advance /\ AllIdle /\ Obj /\ UNCHANGED pr
Hidden == Stay /\ \E h \in Th : Step(h)
TNext == UNCHANGED nv /\ ((More /\ (EvCall \/ EvRet \/ EvCs \/ EvCe \/ EvFin \/ Hidden)) \/ (Accepting /\ Obj /\ UNCHANGED pr))
TSpec == Init /\ [][TNext]_vars
=============================================================================
