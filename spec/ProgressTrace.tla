--------------------------- MODULE ProgressTrace ---------------------------
EXTENDS Progress, TraceBase
VARIABLE names                \* id of each holder the harness keeps -> position
vars == <<held, endv, pr, tr, pos, names>>
Init == TraceInit /\ PInit /\ names = << >>
Obj == UNCHANGED <<held, endv>>
EvCall == /\ E.e = "c" /\ Advance /\ Obj /\ UNCHANGED names
          /\ Open(E.th, E.op, E.a, E.b)
          /\ E.op = "drop" => E.a \in DOMAIN names
EvRet == /\ E.e = "r" /\ Advance /\ Obj
         /\ IF E.op = "hold"
            THEN /\ E.r > 0 /\ Close(E.th, "hold", E.a, 0) /\ names' = Put(names, E.r, E.a)
            ELSE Close(E.th, E.op, E.a, E.r) /\ UNCHANGED names
EvFin == E.e = "fin" /\ Advance /\ AllIdle /\ Obj /\ UNCHANGED <<pr, names>>
Hidden == /\ Stay /\ UNCHANGED names
          /\ \E h \in Th : \/ StepHold(h) \/ StepBegin(h) \/ StepEnd(h)
                           \/ (At(h, {"drop"}, 0) /\ StepDrop(h, names[pr[h].a]))
TNext == (More /\ (EvCall \/ EvRet \/ EvFin \/ Hidden)) \/ (Accepting /\ Obj /\ UNCHANGED <<pr, names>>)
TSpec == Init /\ [][TNext]_vars
=============================================================================
