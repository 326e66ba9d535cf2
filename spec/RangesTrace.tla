---------------------------- MODULE RangesTrace ----------------------------
EXTENDS Ranges, TraceBase
VARIABLES sizes, rs, pr
vars == <<sizes, rs, pr, tr, pos>>
None == <<0, Zero, Zero>>
Bit(x) == IF x THEN 1 ELSE 0
Init == TraceInit /\ sizes = << >> /\ rs = [k \in 0..2 |-> None] /\ pr = << >>
EvSizes == E.e = "sizes" /\ Advance /\ sizes' = E.s /\ UNCHANGED <<rs, pr>>
EvMk == E.e = "mk" /\ Advance /\ rs' = [rs EXCEPT ![E.k] = <<E.f + 1, E.r[1], E.r[2]>>] /\ UNCHANGED <<sizes, pr>>
EvOp == /\ E.e = "op" /\ Advance /\ UNCHANGED <<sizes, pr>>
        /\ LET r == rs[E.k]
               n == IF Legal(E.op, r, E.d) THEN Apply(E.op, r, E.d, sizes[r[1]]) ELSE r IN
           /\ Holds(E.bad = Bit(~Legal(E.op, r, E.d)) /\ E.r = <<n[2], n[3]>> /\ (E.bad = 0 => E.rv = IF E.op \in {"ge", "se"} THEN n[3] ELSE n[2]))
           /\ rs' = [rs EXCEPT ![E.k] = n]
\* whether an empty range meets another is not defined
EvCmp == /\ E.e = "cmp" /\ Advance /\ UNCHANGED <<sizes, rs, pr>>
         /\ Holds(LET x == rs[E.x] y == rs[E.y] IN
              /\ E.eq = Bit(x = y) /\ E.ne = Bit(x # y) /\ E.lt = Bit(Before(x, y)) /\ E.gt = Bit(Before(y, x))
              /\ E.sf = Bit(x[1] = y[1]) /\ E.sz = Size(x) /\ E.em = Bit(Empty(x))
              /\ (~Empty(x) /\ ~Empty(y) => E.ov = Bit(Overlap(x, y)) /\ E.vo = Bit(Overlap(x, y))))
EvPair == /\ E.e = "pair" /\ Advance /\ UNCHANGED <<sizes, rs>>
          /\ Holds(LET x == rs[E.x] y == rs[E.y] IN Empty(x) \/ Empty(y) \/ E.bad = Bit(~Pairs(x, y)))
          /\ pr' = IF E.bad = 1 THEN << >> ELSE <<rs[E.x], rs[E.y]>>
EvPs == /\ E.e = "ps" /\ Advance /\ UNCHANGED <<sizes, rs>>
        /\ LET op == IF E.b = 1 THEN "sb" ELSE "se"
               ok == Legal(op, pr[1], E.d) /\ Legal(op, pr[2], E.d)
               n == IF ok THEN <<Apply(op, pr[1], E.d, Zero), Apply(op, pr[2], E.d, Zero)>> ELSE pr IN
           /\ Holds(E.bad = Bit(~ok) /\ E.s = <<n[1][2], n[1][3]>> /\ E.t = <<n[2][2], n[2][3]>>)
           /\ pr' = n
TNext == (More /\ (EvSizes \/ EvMk \/ EvOp \/ EvCmp \/ EvPair \/ EvPs)) \/ (Accepting /\ UNCHANGED <<sizes, rs, pr>>)
TSpec == Init /\ [][TNext]_vars
=============================================================================
