----------------------------- MODULE AddressMC -----------------------------
(* Every address there can be, for a small filesystem; every two and three. *)
EXTENDS Address
CONSTANTS Blocks, Places
VARIABLES u, v, w
Real == {<<0, p, fl + o>> : p \in 1..Blocks, fl \in {0, 512, 1024, 1536, 2048, 2560, 3072, 3584}, o \in {0}}
        \cup {<<0, p, fl + o>> : p \in 1..Blocks, fl \in {2048, 2560, 3072, 3584}, o \in 1..Places}
All == Real \cup {<<0, 0, m>> : m \in 0..3}
Init == u \in All /\ v \in All /\ w \in All
Spec == Init /\ [][FALSE]_<<u, v, w>>
\* where a block is stored, as far as it is known
Position(x) == IF Magic(x) THEN <<-1, x[3]>> ELSE IF Compressed(x) THEN <<x[2], Place(x)>> ELSE <<x[2], 99>>
Same(x, y) == Position(x) = Position(y) \/ (Compressed(x) /\ Compressed(y) /\ x[2] = y[2] /\ (Place(x) = 0 \/ Place(y) = 0))
Distinct == Eq(u, v) => Same(u, v)
Equivalent == Eq(u, u) /\ (Eq(u, v) = Eq(v, u)) /\ (Eq(u, v) /\ Eq(v, w) /\ Placed(u) = Placed(w) => (Eq(u, w) \/ Placed(v) # Placed(u)))
Ordered == ~Lt(u, u) /\ ~(Lt(u, v) /\ Lt(v, u)) /\ (Eq(u, v) => ~Lt(u, v)) /\ (~Eq(u, v) => Lt(u, v) \/ Lt(v, u))
           /\ (Placed(u) = Placed(v) /\ Placed(v) = Placed(w) /\ Lt(u, v) /\ Lt(v, w) => Lt(u, w))
\* nothing is lost: flags are independent of each other and of the place
Poisoned == ~Magic(u) => LET t == Poison(u) IN Toxic(t) /\ Compressed(t) = Compressed(u) /\ Ends(t) = Ends(u) /\ Place(t) = Place(u) /\ Physical(t) = Physical(u)
\* two blocks of files have the same address only if they are the same stored block
Ext == {[b |-> b, end |-> <<b + n, r>>, ph |-> <<0, p, 0>>, o |-> o, hole |-> FALSE, odd |-> FALSE, un |-> FALSE, da |-> FALSE, enc |-> e, last |-> r # 0]
        : b \in 0..1, n \in 1..2, r \in {0, 7}, p \in {10, 11}, o \in 0..1, e \in {TRUE, FALSE}}
In(x, at) == x.b <= at /\ (at < x.end[1] \/ (at = x.end[1] /\ x.end[2] # 0))
Block(x, at) == IF x.enc THEN <<1, x.ph[2], x.o + at - x.b>> ELSE <<0, x.ph[2] + at - x.b>>
Faithful == \A x \in Ext : \A at \in 0..3 : In(x, at) => LET a == Addr(x, at) IN
              /\ Compressed(a) = x.enc /\ Ends(a) = (x.end[2] # 0 /\ at = x.end[1]) /\ ~Toxic(a)
              /\ \A y \in Ext : \A bt \in 0..3 : In(y, bt) /\ Eq(a, Addr(y, bt)) => Block(x, at) = Block(y, bt)
ASSUME Faithful
=============================================================================
