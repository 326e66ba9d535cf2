---------------------------- MODULE ObjPoolTrace ----------------------------
EXTENDS ObjPool, TraceBase
vars == <<free, used, doomed, gone, hasout, pr, made, user, tr, pos>>
Init == TraceInit /\ OInit(Meta.out) /\ made = 0 /\ user = << >>
Obj == Frame
EvCall == E.e = "c" /\ Advance /\ Obj /\ Open(E.th, E.op, E.a, E.b)
EvRet == E.e = "r" /\ Advance /\ Obj /\ Close(E.th, E.op, E.a, E.r)
EvO == \/ E.e = "new" /\ Advance /\ Make(E.th, E.a)
       \/ E.e = "gt" /\ Advance /\ MakeThrow(E.th)
       \/ E.e = "out" /\ Advance /\ Out(E.th, E.a)
       \/ E.e = "ot" /\ Advance /\ OutThrow(E.th, E.a)
       \/ E.e = "in" /\ Advance /\ CheckIn(E.th, E.a)
       \/ E.e = "del" /\ Advance /\ Delete(E.a)
EvFin == E.e = "fin" /\ Advance /\ AllIdle /\ (gone => Exist = {}) /\ Obj /\ UNCHANGED pr
Hidden == Stay /\ \E h \in Th : Step(h)
TNext == UNCHANGED <<made, user>> /\ ((More /\ (EvCall \/ EvRet \/ EvO \/ EvFin \/ Hidden)) \/ (Accepting /\ Obj /\ UNCHANGED pr))
TSpec == Init /\ [][TNext]_vars
=============================================================================
