---------------------------- MODULE HashIdxTrace ----------------------------
EXTENDS HashIdx, TraceBase
vars == <<tab, junk, bk, cap, tr, pos>>
Clean(a) == IF a > 0 THEN a - (a % 2) ELSE a
\* what is in the file when it is read: marks for slow extents do not outlive a run
Cells(b) == LET f == {x \in Range(Ev[2].b) : x[1] = b} IN IF f = {} THEN << >> ELSE (CHOOSE x \in f : TRUE)[2]
Same(c, i, j) == c[i][1] = c[j][1] /\ Clean(c[i][2]) = Clean(c[j][2])
\* a marked pair next to the same pair unmarked is one pair
Kept(c) == {i \in DOMAIN c : ~(c[i][2] > 0 /\ c[i][2] % 2 = 1 /\ \E j \in DOMAIN c : j # i /\ Same(c, i, j))}
Loaded(h) == LET c == Cells(Meta.h[h])
                 k == Kept(c)
                 s == SelectSeq([i \in DOMAIN c |-> IF i \in k THEN <<c[i][1], Clean(c[i][2])>> ELSE <<0, 0>>], LAMBDA x : x[1] = h /\ x[2] > 0)
             IN [i \in DOMAIN s |-> s[i][2]]
Wasted(b) == Cardinality({i \in Kept(Cells(b)) : Cells(b)[i][2] < 0})
Init == /\ tr \in 1..Len(Traces) /\ pos = 3
        /\ tab = [h \in DOMAIN Meta.h |-> Loaded(h)] /\ bk = Meta.h /\ cap = Meta.cap
        /\ junk = [b \in Range(Meta.h) |-> Wasted(b)]
EvLook == E.e = "look" /\ Advance /\ Look(E.h, E.l)
EvPut == E.e = "op" /\ E.op # "erase" /\ Advance /\ Put(E.h, E.a, E.op, E.r = 1)
EvErase == E.e = "op" /\ E.op = "erase" /\ Advance /\ Erase(E.h, E.a)
EvIO == Holds(E.e \in {"rd", "wr"}) /\ Advance /\ UNCHANGED ivars
TNext == (More /\ (EvLook \/ EvPut \/ EvErase \/ EvIO)) \/ (Accepting /\ UNCHANGED ivars)
TSpec == Init /\ [][TNext]_vars
=============================================================================
