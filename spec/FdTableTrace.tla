---------------------------- MODULE FdTableTrace ----------------------------
EXTENDS FdTable, TraceBase
vars == <<isopen, refs, due, pr, tr, pos>>
Init == TraceInit /\ FInit
Obj == UNCHANGED <<isopen, refs, due>>
EvCall == E.e = "c" /\ Advance /\ Obj /\ Open(E.th, E.op, E.a, E.b)
EvRet == E.e = "r" /\ Advance /\ Obj /\ Close(E.th, E.op, E.a, E.r)
EvK == \/ E.e = "kopen" /\ Advance /\ KOpen(E.a)
       \/ E.e = "copy" /\ Advance /\ Copy(E.a)
       \/ E.e = "close" /\ E.b = 1 /\ Advance /\ KClose(E.a)
EvFin == /\ E.e = "fin" /\ Advance /\ AllIdle /\ Obj /\ UNCHANGED pr
         /\ due = {} /\ (pos = Len(Ev) => isopen = {})
Hidden == Stay /\ \E h \in Th : Wrap(h) \/ Drop(h)
TNext == (More /\ (EvCall \/ EvRet \/ EvK \/ EvFin \/ Hidden)) \/ (Accepting /\ Obj /\ UNCHANGED pr)
TSpec == Init /\ [][TNext]_vars
=============================================================================
