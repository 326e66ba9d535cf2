------------------------------ MODULE HashIdx ------------------------------
(* What can be looked up in the hash index, one operation at a time.       *)
(* tab[h] lists the addresses recorded for hash h, the longest kept first; *)
(* bk[h] is the bucket of h, which holds at most cap pairs; junk[b] cells  *)
(* of a bucket are taken by entries that can never be looked up.           *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES tab, junk, bk, cap
ivars == <<tab, junk, bk, cap>>
Hashes == DOMAIN tab
Range(s) == {s[i] : i \in DOMAIN s}
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET h == CHOOSE h \in S : TRUE IN Len(f[h]) + Total(f, S \ {h})
Mates(b) == {h \in Hashes : bk[h] = b}
Count(b) == junk[b] + Total(tab, Mates(b))
Full(b) == Count(b) >= cap
Front(s) == SubSeq(s, 1, Len(s) - 1)

\* where the pair (h, a) may be afterwards, front-most first
Places(h, a, op) ==
  IF op = "front" THEN {<<a>> \o Without(tab[h], a)}
  ELSE LET w == Without(tab[h], a)
           n == IF a \in Range(tab[h]) THEN CHOOSE i \in DOMAIN tab[h] : tab[h][i] = a ELSE Len(w) + 1
       IN {InsertAt(w, i, a) : i \in 1..n}
\* recording or promoting; r says whether the pair was there
Put(h, a, op, r) ==
  LET b == bk[h]
  IN /\ r = (a \in Range(tab[h]))
     /\ UNCHANGED <<bk, cap>>
     /\ IF r \/ ~Full(b) THEN (\E s \in Places(h, a, op) : tab' = [tab EXCEPT ![h] = s]) /\ UNCHANGED junk
        ELSE \* the last pair of the bucket makes room: the last of its own hash, at any rate
             \/ \E g \in Mates(b) : /\ Len(tab[g]) > 0 /\ UNCHANGED junk
                                    /\ \E s \in Places(h, a, op) :
                                         IF g # h THEN tab' = [tab EXCEPT ![h] = s, ![g] = Front(tab[g])]
                                         ELSE tab' = [tab EXCEPT ![h] = IF s[Len(s)] = a THEN Front(Front(s)) \o <<a>> ELSE Front(s)]
             \/ /\ junk[b] > 0 /\ junk' = [junk EXCEPT ![b] = @ - 1]
                /\ \E s \in Places(h, a, op) : tab' = [tab EXCEPT ![h] = s]
Erase(h, a) == tab' = [tab EXCEPT ![h] = Without(@, a)] /\ UNCHANGED <<junk, bk, cap>>
Look(h, l) == l = tab[h] /\ UNCHANGED ivars
=============================================================================
