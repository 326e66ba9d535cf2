--------------------------- MODULE HashDiskTrace ---------------------------
EXTENDS HashDisk, TraceBase
\* which property is being decided: C11 (what lookups return) or C12 (what reaches the file)
CONSTANT Check
vars == <<disk, vers, failed, bk, per, pr, tr, pos>>
\* contents of bucket b in an event listing the buckets that are not empty
In(e, b) == LET f == {i \in DOMAIN e.b : e.b[i][1] = b} IN IF f = {} THEN {} ELSE SetOf(e.b[CHOOSE i \in f : TRUE][2])
NoTwice(e) == \A i \in DOMAIN e.b : Cardinality(SetOf(e.b[i][2])) = Len(e.b[i][2])
Init == /\ tr \in 1..Len(Traces) /\ pos = 3 /\ ProcInit /\ failed = {} /\ bk = Meta.h /\ per = 32
        /\ disk = [b \in 0..(Meta.x * 32 - 1) |-> In(Ev[2], b)]
        /\ vers = [x \in 0..(Meta.x - 1) |-> << >>]
Span == E.o..(E.o + E.n - 1)
X == E.o \div per
EvUp == E.e = "up" /\ Advance /\ Start
EvCall == E.e = "c" /\ Advance /\ UNCHANGED dvars /\ Open(E.th, E.op, E.a, E.b)
Found == IF E.op = "find" THEN pr[E.th].x = SetOf(E.r) /\ Cardinality(SetOf(E.r)) = Len(E.r) ELSE pr[E.th].r = E.r
EvRet == /\ E.e = "r" /\ Advance /\ UNCHANGED dvars /\ At(E.th, {E.op}, DONE) /\ pr[E.th].a = E.a /\ Holds(Found)
         /\ pr' = [pr EXCEPT ![E.th] = Idle]
EvRd == /\ E.e = "rd" /\ Advance /\ E.o % per = 0 /\ X \in Extents
        /\ IF E.er = 0 /\ E.n = per THEN ReadOk(X) ELSE ReadFails(X)
EvWr == /\ E.e = "wr" /\ Check = "C12" /\ Advance /\ E.odd = 0 /\ X \in Extents
        /\ IF E.er # 0 THEN WriteFails(X)
           ELSE NoTwice(E) /\ Write(X, Span, [b \in Span |-> In(E, b)], E.short = 0)
EvRest == Holds(E.e \in {"calm", "stopped"}) /\ Advance /\ Holds(Check = "C12" => Rest) /\ UNCHANGED <<dvars, pr>>
EvStopping == E.e = "stopping" /\ Advance /\ Stopping
EvKill == E.e = "kill" /\ Advance /\ UNCHANGED <<dvars, pr>>
EvFile == /\ E.e = "file" /\ Check = "C12" /\ Advance /\ UNCHANGED <<dvars, pr>>
          /\ E.x = Meta.x /\ \A b \in Buckets : disk[b] = In(E, b)
\* an operation may as well take effect just before the next event that can tell
Tells == IF E.e = "r" THEN Ext(bk[E.a]) ELSE IF E.e = "wr" /\ Check = "C12" THEN X ELSE -1
\* C11 takes the file as it is
EvTake == /\ Holds(Check = "C11" /\ E.e \in {"wr", "file"}) /\ Advance /\ UNCHANGED <<vers, failed, bk, per, pr>>
          /\ disk' = [b \in Buckets |-> IF E.e = "file" \/ (E.er = 0 /\ E.o <= b /\ b < E.o + E.n) THEN In(E, b) ELSE disk[b]]
Hidden == Tells # -1 /\ Stay /\ \E h \in {g \in Th : pr[g].op # "none" /\ Ext(bk[pr[g].a]) = Tells} : Do(h)
TNext == (More /\ (EvUp \/ EvCall \/ EvRet \/ EvRd \/ EvWr \/ EvRest \/ EvStopping \/ EvKill \/ EvFile \/ EvTake \/ Hidden)) \/ (Accepting /\ UNCHANGED <<dvars, pr>>)
TSpec == Init /\ [][TNext]_vars
=============================================================================
