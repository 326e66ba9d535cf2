----------------------------- MODULE HashIdxMC -----------------------------
(* Two buckets; what the index must never do, whatever is recorded.        *)
EXTENDS HashIdx
CONSTANTS NHash, NAddr, Cap
VARIABLES rec
mvars == <<tab, junk, bk, cap, rec>>
A == 1..NAddr
Init == /\ tab = [h \in 1..NHash |-> << >>] /\ bk = [h \in 1..NHash |-> h % 2] /\ cap = Cap /\ rec = {}
        /\ junk \in [0..1 -> 0..1]
Pairs == {<<h, tab[h][i]>> : <<h, i>> \in {x \in Hashes \X (1..Cap) : x[2] <= Len(tab[x[1]])}}
Next == \E h \in Hashes, a \in A :
          \/ \E op \in {"front", "random"}, r \in BOOLEAN : Put(h, a, op, r) /\ rec' = rec \cup {<<h, a>>}
          \/ Erase(h, a) /\ rec' = rec \ {<<h, a>>}
Spec == Init /\ [][Next]_mvars
Bounded == \A b \in DOMAIN junk : Count(b) <= Cap
NotInvented == Pairs \subseteq rec
Once == \A h \in Hashes : Cardinality(Range(tab[h])) = Len(tab[h])
\* a pair goes only when it is erased, or when a new one needs its place in the same, full bucket
Step == LET lost == Pairs \ Pairs'
            new == Pairs' \ Pairs
        IN \/ lost \subseteq rec \ rec' /\ new = {}
           \/ lost = {} /\ Cardinality(new) <= 1
           \/ /\ Cardinality(lost) = 1 /\ Cardinality(new) = 1
              /\ \A x \in lost, y \in new : bk[x[1]] = bk[y[1]] /\ Full(bk[y[1]])
LosesNothing == [][Step]_mvars
=============================================================================
