------------------------------- MODULE Files -------------------------------
(* How a file is laid out: its items <<block, <<blocks, bytes>>, type,      *)
(* physical block, offset in the extent, compressed>> (type 0 inline,       *)
(* 1 regular, 2 preallocated) and its size <<blocks, bytes>> determine      *)
(* a sequence of entries <<begin, end, kind, physical, compressed, offset>> *)
(* (kind 0 hole, 1 data, 2 preallocated, 3 inline) which cover it exactly.  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES items, size
B(b) == <<b, 0>>
Lt(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Le(x, y) == x = y \/ Lt(x, y)
Min2(x, y) == IF Lt(x, y) THEN x ELSE y
End(t) == <<t[1] + t[2][1], t[2][2]>>
HoleAt(b, e) == IF Lt(b, e) THEN <<<<b, e, 0, 0, 0, 0>>>> ELSE << >>
Kind(t) == IF t[3] = 0 THEN 3 ELSE IF t[4] = 0 THEN 0 ELSE t[3]
Entry(t, sz) == <<B(t[1]), Min2(End(t), sz), Kind(t), IF Kind(t) \in {0, 3} THEN 0 ELSE IF t[6] = 0 THEN t[4] + t[5] ELSE t[4], IF Kind(t) = 0 THEN 0 ELSE t[6], t[5]>>
RECURSIVE Walk(_, _, _, _)
Walk(its, sz, k, p) == IF k > Len(its) \/ ~Lt(B(its[k][1]), sz) THEN HoleAt(p, sz)
                       ELSE HoleAt(p, B(its[k][1])) \o <<Entry(its[k], sz)>> \o Walk(its, sz, k + 1, End(its[k]))
Entries(its, sz) == Walk(its, sz, 1, B(0))
\* "described without gaps or overlaps from its start to its end"
Covers(es, sz) == /\ (es = << >>) = (sz = B(0))
                  /\ es # << >> => es[1][1] = B(0) /\ es[Len(es)][2] = sz
                  /\ \A k \in 1..Len(es) - 1 : es[k][2] = es[k + 1][1]
                  /\ \A k \in DOMAIN es : Lt(es[k][1], es[k][2])
Index(es, b) == IF es = << >> THEN 0
                ELSE IF ~Lt(B(b), es[Len(es)][2]) THEN Len(es)
                ELSE CHOOSE k \in DOMAIN es : Le(es[k][1], B(b)) /\ Lt(B(b), es[k][2])
=============================================================================
