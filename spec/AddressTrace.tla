---------------------------- MODULE AddressTrace ----------------------------
EXTENDS Address, TraceBase
vars == <<tr, pos>>
Bit(b) == IF b THEN 1 ELSE 0
EvA == E.e = "a" /\ Advance
       /\ Holds(LET v == E.v IN E.cp = 1 /\ E.mg = Bit(Magic(v)) /\ E.z = Bit(Compressed(v)) /\ E.ho = Bit(Placed(v)) /\ E.tx = Bit(Toxic(v)) /\ E.eof = Bit(Ends(v))
                /\ E.no = Bit(~Placed(v)) /\ (Placed(v) => E.off = Offset(v)) /\ E.nt = Bit(Magic(v)) /\ E.t = (IF Magic(v) THEN v ELSE Poison(v))
                /\ E.ph = Physical(v) /\ E.hx = E.v3)
EvCmp == E.e = "cmp" /\ Advance /\ Holds(E.eq = Bit(Eq(E.x, E.y)) /\ E.ne = Bit(~Eq(E.x, E.y)) /\ E.lt = Bit(Lt(E.x, E.y)))
EvMk == E.e = "mk" /\ Advance
        /\ Holds(E.bad = 0 /\ E.a = Addr([b |-> E.b, end |-> E.end, ph |-> E.ph, o |-> E.o, hole |-> E.hole = 1, odd |-> E.odd = 1, un |-> E.un = 1, da |-> E.da = 1, enc |-> E.enc = 1, last |-> E.last = 1], E.at))
TNext == (More /\ (EvA \/ EvCmp \/ EvMk)) \/ Accepting
TSpec == TraceInit /\ [][TNext]_vars
=============================================================================
