------------------------------ MODULE RangesMC ------------------------------
(* Any range operations, in any order, on two ranges of a small file.       *)
EXTENDS Ranges, FiniteSets
CONSTANTS Sz
VARIABLES a, b, paired
vars == <<a, b, paired>>
\* small digits, so that they carry
Three == 3
N(k) == <<k \div 9, (k \div 3) % 3, k % 3>>
Nums == {N(k) : k \in 0..Sz}
Steps == {N(k) : k \in 0..4}
S == N(Sz)
Ranges == {<<f, x, y>> : f \in 1..2, x \in Nums, y \in Nums}
Init == a \in {r \in Ranges : LessEq(r[2], r[3])} /\ b \in {r \in Ranges : LessEq(r[2], r[3])} /\ paired = Pairs(a, b)
Grow == ~paired /\ \E op \in {"ge", "gb"} : \E d \in Steps : Legal(op, a, d) /\ a' = Apply(op, a, d, S) /\ UNCHANGED <<b, paired>>
Shrink == ~paired /\ \E op \in {"sb", "se"} : \E d \in Steps : Legal(op, a, d) /\ LessEq(d, Size(a)) /\ a' = Apply(op, a, d, S) /\ UNCHANGED <<b, paired>>
ShrinkBoth == paired /\ \E op \in {"sb", "se"} : \E d \in Steps : Legal(op, a, d) /\ Legal(op, b, d) /\ LessEq(d, Size(a)) /\ a' = Apply(op, a, d, S) /\ b' = Apply(op, b, d, S) /\ UNCHANGED paired
Spec == Init /\ [][Grow \/ Shrink \/ ShrinkBoth]_vars
In == Inside(a, S) /\ Inside(b, S)
Paired == paired => Pairs(a, b)
Mem(r) == {x \in Nums : LessEq(r[2], x) /\ Less(x, r[3])}
Meets == (a[1] = b[1] /\ Mem(a) \cap Mem(b) # {}) => Overlap(a, b)
Ordered == Overlap(a, b) = Overlap(b, a) /\ ~(Before(a, b) /\ Before(b, a)) /\ (a # b => Before(a, b) \/ Before(b, a))
Directions == [][(Grow => LessEq(a'[2], a[2]) /\ LessEq(a[3], a'[3])) /\ (Shrink => LessEq(a[2], a'[2]) /\ LessEq(a'[3], a[3]) /\ Less(Size(a'), Size(a)))]_vars
=============================================================================
