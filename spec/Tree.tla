-------------------------------- MODULE Tree --------------------------------
(* A metadata tree is a sequence of items <<object, type, offset,           *)
(* generation>> in key order.  A search is for items of one type whose      *)
(* generation is in a window: by object, or by offset within one object.    *)
(* What it must answer is defined by the complete listing alone.            *)
EXTENDS Num64, Sequences, FiniteSets
VARIABLES items, by,      \* what is there; what is searched for
          groups,         \* block groups <<begin, end, holds data>>
          sums            \* checksum items <<block, first sum, number>>
tvars == <<items, by, groups, sums>>
Min(S) == CHOOSE k \in S : \A j \in S : k <= j
Max(S) == CHOOSE k \in S : \A j \in S : k >= j
FirstOf(S) == IF S = {} THEN 0 ELSE Min(S)
Pos(k) == IF by.off = 1 THEN items[k][3] ELSE items[k][1]
\* in a group that holds no data there are no extents to be found; whoever finds one anyway is not wrong
InData(k) == groups = << >> \/ \E g \in DOMAIN groups : groups[g][3] = 1 /\ LessEq(groups[g][1], items[k][1]) /\ Less(items[k][1], groups[g][2])
Match == {k \in DOMAIN items : /\ items[k][2] = by.ty /\ by.lo <= items[k][4] /\ items[k][4] <= by.hi
                               /\ by.off = 1 => items[k][1] = by.o}
Wanted == {k \in Match : InData(k)}
\* of several items at one position the first counts
Heads(S) == {k \in S : \A j \in S : j < k => Pos(j) # Pos(k)}
At(x) == FirstOf({k \in Match : Pos(k) = x})
Above(S, x, orAt) == FirstOf({k \in S : Less(x, Pos(k)) \/ (orAt /\ x = Pos(k))})
Below(S, x, orAt) == LET c == {k \in S : Less(Pos(k), x) \/ (orAt /\ x = Pos(k))} IN IF c = {} THEN 0 ELSE Max(Heads(c))
\* r answers the question if no wanted item is passed over
Up(r, x, orAt) == r = Above(Wanted, x, orAt) \/ (r \in Match \ Wanted /\ r = Above(Wanted \cup {r}, x, orAt))
Down(r, x, orAt) == r = Below(Wanted, x, orAt) \/ (r \in Match \ Wanted /\ r = Below(Wanted \cup {r}, x, orAt))
Answer(op, x, r) == CASE op = "at" -> r = At(x)
                      [] op = "lb" -> Up(r, x, TRUE)
                      [] op = "next" -> Up(r, x, FALSE)
                      [] op = "rlb" -> Down(r, x, TRUE)
                      [] op = "prev" -> Down(r, x, FALSE)
InOrder(s, up) == \A k \in 1..Len(s) - 1 : IF up THEN s[k] < s[k + 1] ELSE s[k] > s[k + 1]
Rng(s) == {s[k] : k \in DOMAIN s}
\* visiting everything
Visits(s, up) == InOrder(s, up) /\ Heads(Wanted) \subseteq Rng(s) /\ Rng(s) \subseteq Heads(Match)
\* everything in a key range, step by step
KeyLess(a, b) == \/ Less(a[1], b[1])
                 \/ a[1] = b[1] /\ a[2] < b[2]
                 \/ a[1] = b[1] /\ a[2] = b[2] /\ Less(a[3], b[3])
Key(k) == <<items[k][1], items[k][2], items[k][3]>>
InRange(mn, mx, lo, only) == {k \in DOMAIN items : ~KeyLess(Key(k), mn) /\ ~KeyLess(mx, Key(k)) /\ items[k][4] >= lo /\ only \in {0, items[k][2]}}
Lists(s, S) == InOrder(s, TRUE) /\ Rng(s) = S
\* the checksums of n blocks starting with x
SumsOf(x, n) == {<<b, s>> \in UNION {{<<sums[k][1] + j, sums[k][2] + j>> : j \in 0..sums[k][3] - 1} : k \in DOMAIN sums} : x <= b /\ b < x + n}
=============================================================================
