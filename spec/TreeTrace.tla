----------------------------- MODULE TreeTrace -----------------------------
EXTENDS Tree, TraceBase
vars == <<tvars, tr, pos>>
None == [off |-> 0, o |-> Zero, ty |-> 0, lo |-> 0, hi |-> 0]
Init == TraceInit /\ items = << >> /\ by = None /\ groups = << >> /\ sums = << >>
EvTree == E.e \in {"tree", "keys"} /\ Advance
          /\ items' = (IF E.e = "tree" THEN E.it ELSE [k \in DOMAIN E.k |-> <<E.k[k], 1, Zero, 1>>])
          /\ by' = (IF E.e = "tree" THEN None ELSE [None EXCEPT !.ty = 1, !.hi = 1]) /\ UNCHANGED <<groups, sums>>
EvBg == E.e = "bg" /\ Advance /\ groups' = E.b /\ UNCHANGED <<items, by, sums>>
EvCs == E.e = "cs" /\ Advance /\ sums' = E.b /\ UNCHANGED <<items, by, groups>>
EvBy == E.e = "by" /\ Advance /\ by' = [off |-> E.off, o |-> E.o, ty |-> E.ty, lo |-> E.lo, hi |-> E.hi] /\ UNCHANGED <<items, groups, sums>>
EvQ == E.e = "q" /\ Holds(Answer(E.op, E.x, E.r)) /\ Advance /\ UNCHANGED tvars
EvAll == E.e = "all" /\ Holds(Visits(E.r, E.fw = 1)) /\ Advance /\ UNCHANGED tvars
EvScan == E.e = "scan" /\ Holds(Lists(E.r, InRange(E.min, E.max, E.lo, E.only))) /\ Advance /\ UNCHANGED tvars
EvSums == E.e = "sums" /\ Holds(Rng(E.r) = SumsOf(E.x, E.n) /\ \A k \in 1..Len(E.r) - 1 : E.r[k][1] < E.r[k + 1][1]) /\ Advance /\ UNCHANGED tvars
\* the search itself: the nearest key not above x, or the lowest number there is; within its promised number of steps
EvSeek == /\ E.e = "seek" /\ Advance /\ UNCHANGED tvars
          /\ Holds(E.bad = 0 /\ E.l <= 130 /\ LET b == Below(Match, E.x, TRUE) IN E.r = IF b = 0 THEN Zero ELSE Pos(b))
TNext == (More /\ (EvTree \/ EvBg \/ EvCs \/ EvBy \/ EvQ \/ EvAll \/ EvScan \/ EvSums \/ EvSeek)) \/ (Accepting /\ UNCHANGED tvars)
TSpec == Init /\ [][TNext]_vars
=============================================================================
