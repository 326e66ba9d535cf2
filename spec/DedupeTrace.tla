---------------------------- MODULE DedupeTrace ----------------------------
EXTENDS Dedupe, TraceBase
CONSTANT Check      \* the property that decides; the others only follow along
vars == <<fvars, tr, pos>>
Is(p) == Check = p
Init == TraceInit /\ DInit
Rec == [sz |-> E.sz, x |-> E.x, ro |-> E.ro, m |-> E.m]
EvU == E.e = "u" /\ UserSet(E.f, Rec)
EvStart == E.e = "start" /\ NewLife
EvRo == E.e = "ro" /\ rotog' = rotog \cup {E.s} /\ file' = [f \in DOMAIN file |-> IF f \div 1000 = E.s THEN [file[f] EXCEPT !.ro = E.v] ELSE file[f]]
        /\ UNCHANGED <<know, chg, pre, tmp, lvars, hvars, used, due>>
EvRd == E.e = "rd" /\ Read(E.f, E.b, E.c)
EvTmp == E.e = "tn" /\ TmpNew(E.f)
EvTg == E.e = "tg" /\ TmpGone(E.f)
EvTr == /\ E.e = "tr"
        /\ Holds(Is("C16") => E.k = "t")
        /\ Holds(Is("C18") /\ Meta.clean = 1 /\ chg = {} => \A b \in Get(due, E.f, {}) : b < NB(E.sz))
        /\ IF E.f \in tmp THEN TmpSize(E.f, E.sz) ELSE DSame
EvWr == /\ E.e = "wr"
        /\ Holds(Is("C16") => E.k = "t")
        /\ Holds(Is("C18") => E.off % BLK = 0 /\ E.off >= BLK /\ \A i \in DOMAIN E.m : \E q \in DOMAIN know : E.m[i][2] \in know[q])
        /\ IF E.f \in tmp THEN TmpWrite(E.f, E.off \div BLK, E.m, E.off + E.len) ELSE DSame
EvDd == /\ E.e = "dd"
        /\ LET n == NB(E.len)  sb == E.so \div BLK  db == E.do \div BLK IN
           /\ Holds(Is("C17") => WellFormed(E.s, E.so, E.d, E.do, E.len) /\ Justified(E.s, sb, E.d, db, n) /\ NotAlready(E.s, sb, E.d, db, n))
           /\ Holds(Is("C20") => E.dk \in {"f", "h"} /\ E.sk \in {"f", "h", "t"} /\ Permitted(E.s, E.d, Meta.wa) /\ PreToHole(E.s, sb, E.d, db, n))
           /\ Holds(Is("C24") => Avoided(E.s, sb, n, Meta.threads = 1))
           /\ Holds(Is("C18") => E.dk # "t")
           /\ Dedupe(E.s, sb, E.d, db, NB(IF E.st = 0 THEN E.by ELSE E.len), E.st = 0)
EvLi == E.e = "li" /\ Lookup(E.p, E.slow = 1, E.many = 1, {E.r[i] : i \in DOMAIN E.r})
EvHn == E.e = "hn" /\ HomeNew(E.f)
EvHw == E.e = "hw" /\ HomeWrite(E.f, E.b, E.m, E.end)
EvOwn == E.e = "own" /\ Index(E.f)
EvBad == E.e = "bad" /\ ~Is(E.p) /\ DSame      \* something that is never allowed, by property
\* contents, sizes and storage are what they should be
EvEnd == /\ E.e = "end" /\ DSame
         /\ E.f \in DOMAIN file
         /\ Holds(Is("C16") => E.sz = file[E.f].sz /\ [b \in DOMAIN E.m |-> E.m[b][2]] = [b \in DOMAIN file[E.f].m |-> file[E.f].m[b][2]])
         /\ Holds(Is("C17") => [b \in DOMAIN E.m |-> E.m[b][1]] = [b \in DOMAIN file[E.f].m |-> file[E.f].m[b][1]])
EvSettled == /\ E.e = "settled" /\ DSame
             /\ Holds(Is("C18") => (Meta.faults = 1 \/ NoCopiesLeft) /\ ((Meta.clean = 1 /\ chg = {}) => Worthwhile))
EvExit == E.e = "exit" /\ DSame
TNext == \/ More /\ Advance /\ (EvU \/ EvStart \/ EvRo \/ EvRd \/ EvTmp \/ EvTg \/ EvTr \/ EvWr \/ EvDd \/ EvLi \/ EvHn \/ EvHw \/ EvOwn \/ EvBad \/ EvEnd \/ EvSettled \/ EvExit)
         \/ Accepting /\ DSame
TSpec == Init /\ [][TNext]_vars
=============================================================================
