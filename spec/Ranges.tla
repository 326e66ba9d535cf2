------------------------------- MODULE Ranges -------------------------------
(* A range of a file <<file, begin, end>>, of sizes that take 64 bits.      *)
EXTENDS Num64, Sequences
Clamp(n, lim) == Least(n, lim)
GrowEnd(r, d, size) == <<r[1], r[2], Least(Plus(r[3], d), size)>>
GrowBegin(r, d) == <<r[1], Minus(r[2], Least(d, r[2])), r[3]>>
ShrinkBegin(r, d) == <<r[1], Plus(r[2], d), r[3]>>
ShrinkEnd(r, d) == <<r[1], r[2], Minus(r[3], d)>>
Legal(op, r, d) == /\ d # Zero
                   /\ op = "sb" => Less(Plus(r[2], d), r[3])
                   /\ op = "se" => LessEq(d, r[3])
Apply(op, r, d, size) == CASE op = "ge" -> GrowEnd(r, d, size) [] op = "gb" -> GrowBegin(r, d)
                           [] op = "sb" -> ShrinkBegin(r, d) [] op = "se" -> ShrinkEnd(r, d)
Size(r) == Minus(r[3], r[2])
Empty(r) == r[2] = r[3]
Overlap(r, s) == r[1] = s[1] /\ Less(r[2], s[3]) /\ Less(s[2], r[3])
Before(r, s) == r[1] < s[1] \/ (r[1] = s[1] /\ (Less(r[2], s[2]) \/ (r[2] = s[2] /\ Less(r[3], s[3]))))
Inside(r, size) == LessEq(r[2], r[3]) /\ LessEq(r[3], size)
Pairs(r, s) == Size(r) = Size(s) /\ ~Overlap(r, s)
=============================================================================
