------------------------------ MODULE Address ------------------------------
(* The address of a stored block is one 64 bit number: <<h, l, low>> is     *)
(* block number h * 2^26 + l with 12 bits for what else is to be known:     *)
(* compressed (2048), file ends within it (1024), toxic (512), and its      *)
(* place in a compressed extent plus 1 (0: not given).  Four numbers are    *)
(* no addresses: not known, not allocated yet, hole, unusable.              *)
EXTENDS Integers, Sequences
HiHalf == 67108864
Magic(v) == v[1] = 0 /\ v[2] = 0 /\ v[3] < 4
Has(v, bit) == ~Magic(v) /\ (v[3] \div bit) % 2 = 1
Compressed(v) == Has(v, 2048)
Ends(v) == Has(v, 1024)
Toxic(v) == Has(v, 512)
Place(v) == v[3] % 64
Placed(v) == Compressed(v) /\ Place(v) # 0
Offset(v) == (Place(v) - 1) * 4096
Coarse(v) == <<v[1], v[2], v[3] - Place(v)>>
Poison(v) == IF Toxic(v) THEN v ELSE <<v[1], v[2], v[3] + 512>>
Physical(v) == IF Magic(v) THEN <<0, 0, 0>> ELSE <<v[1], v[2], ((v[3] \div 64) % 8) * 64>>
\* a compressed extent whose place is not given stands for all of its blocks
Eq(v, w) == IF Placed(v) = Placed(w) THEN v = w ELSE Coarse(v) = Coarse(w)
Below(v, w) == v[1] < w[1] \/ (v[1] = w[1] /\ (v[2] < w[2] \/ (v[2] = w[2] /\ v[3] < w[3])))
Lt(v, w) == IF Placed(v) = Placed(w) THEN Below(v, w) ELSE Below(Coarse(v), Coarse(w))
Onward(v, n) == <<v[1] + (v[2] + n) \div HiHalf, (v[2] + n) % HiHalf, v[3]>>
\* block `at` of a file, in an extent x shown from block x.b to <<block, bytes>> x.end
Addr(x, at) ==
  CASE x.hole -> <<0, 0, 2>>
    [] ~x.hole /\ (x.odd \/ x.un) -> <<0, 0, 3>>
    [] ~x.hole /\ ~x.odd /\ ~x.un /\ x.da -> <<0, 0, 1>>
    [] OTHER -> LET p == IF x.enc THEN <<x.ph[1], x.ph[2], 2048 + at - x.b + x.o + 1>> ELSE Onward(x.ph, at - x.b)
                IN IF x.last /\ x.end[2] # 0 /\ at = x.end[1] THEN <<p[1], p[2], p[3] + 1024>> ELSE p
=============================================================================
