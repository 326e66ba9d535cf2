----------------------------- MODULE NamedTrace -----------------------------
EXTENDS Named, TraceBase
vars == <<cur, refs, alive, klock, pr, made, tr, pos>>
Init == TraceInit /\ NInit /\ made = 0
Obj == UNCHANGED <<cur, refs, alive, klock>>
EvCall == E.e = "c" /\ Advance /\ Obj /\ Open(E.th, E.op, E.a, E.b)
EvRet == /\ E.e = "r" /\ Advance /\ Obj /\ E.op \in {"get", "insert", "drop"}
         /\ Close(E.th, E.op, E.a, E.r)
EvCs == E.e = "cs" /\ Advance /\ E.a = K(E.th) /\ ComputeStart(E.th)
EvCe == /\ E.e = "ce" /\ Advance /\ E.a = K(E.th)
        /\ IF E.b = 0 THEN ComputeThrow(E.th) ELSE ComputeEnd(E.th, E.b)
EvNew == E.e = "new" /\ Advance /\ Make(E.a)
EvDel == E.e = "del" /\ Advance /\ Destroy(E.a)
\* nobody holds anything: everything that was made is gone
EvFin == E.e = "fin" /\ Advance /\ AllIdle /\ (pos = Len(Ev) => alive = {}) /\ Obj /\ UNCHANGED pr
Hidden == Stay /\ \E h \in Th : Step(h)
TNext == UNCHANGED made /\ ((More /\ (EvCall \/ EvRet \/ EvCs \/ EvCe \/ EvNew \/ EvDel \/ EvFin \/ Hidden)) \/ (Accepting /\ Obj /\ UNCHANGED pr))
TSpec == Init /\ [][TNext]_vars
=============================================================================
