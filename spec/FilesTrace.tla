----------------------------- MODULE FilesTrace -----------------------------
EXTENDS Files, TraceBase
CONSTANTS Check
VARIABLES at          \* the walker is at this entry
vars == <<items, size, at, tr, pos>>
Es == Entries(items, size)
C22 == Check = "C22"
Init == TraceInit /\ items = << >> /\ size = B(0) /\ at = 0
EvFile == E.e = "file" /\ Advance /\ items' = E.it /\ size' = E.sz /\ at' = 0
\* what is reported for entry k; the mark for the last one matters where it holds data
Shows(c, k) == LET e == Es[k] IN c[1] = e[1] /\ c[2] = e[2] /\ c[3] = e[3] /\ (e[3] \in {1, 2} => c[4] = e[4]) /\ (e[3] # 0 => c[5] = e[5])
               /\ (c[6] = 1 => k = Len(Es)) /\ (k = Len(Es) /\ e[3] # 0 => c[6] = 1)
EvSeek == /\ E.e = "w" /\ E.op = "seek" /\ Advance /\ UNCHANGED <<items, size>>
          /\ Holds(~C22 \/ IF Es = << >> THEN E.bad = 1 ELSE E.bad = 0 /\ Shows(E.c, Index(Es, E.p)))
          /\ at' = IF E.bad = 1 THEN 0 ELSE Index(Es, E.p)
EvStep == /\ E.e = "w" /\ E.op # "seek" /\ Advance /\ UNCHANGED <<items, size>>
          /\ LET k == IF E.op = "next" THEN at + 1 ELSE at - 1
                 ok == k \in DOMAIN Es IN
             /\ Holds(~C22 \/ (E.bad = 0 /\ E.r = (IF ok THEN 1 ELSE 0) /\ Shows(E.c, IF ok THEN k ELSE at)))
             /\ at' = IF ok THEN k ELSE at
\* C25: the address of a block
AddressOf(e, p, last) ==
  LET d == p - e[1][1]
      ph == IF e[5] = 1 THEN e[4] ELSE e[4] + d
      low == (IF e[5] = 1 THEN 2048 + e[6] + d + 1 ELSE 0) + (IF last /\ e[2][2] # 0 /\ p = e[2][1] THEN 1024 ELSE 0)
  IN CASE e[3] = 0 -> <<0, 0, 2>> [] e[3] = 3 -> <<0, 0, 3>> [] OTHER -> <<ph \div 67108864, ph % 67108864, low>>
EvAt == /\ E.e = "at" /\ Advance /\ UNCHANGED <<items, size, at>>
        /\ Holds(Check # "C25" \/ (E.bad = 0 /\ LET k == Index(Es, E.p) IN E.a = AddressOf(Es[k], E.p, k = Len(Es))))
TNext == (More /\ (EvFile \/ EvSeek \/ EvStep \/ EvAt)) \/ (Accepting /\ UNCHANGED <<items, size, at>>)
TSpec == Init /\ [][TNext]_vars
=============================================================================
