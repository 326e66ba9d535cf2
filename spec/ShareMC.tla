------------------------------ MODULE ShareMC ------------------------------
(* Every layout of the promised kind, scanned by Workers in every order:    *)
(* first pieces with contents of their own, then copies of them with less   *)
(* new data than known (and zeros); with one worker whole copies may be     *)
(* there from the beginning.                                                *)
EXTENDS Share, Sequences, TLC
CONSTANTS Workers, MaxLen, Firsts, Copies, Together
VARIABLES phase
vars == <<svars, phase>>
Rng(s) == {s[i] : i \in DOMAIN s}
Count(s, S) == Cardinality({i \in DOMAIN s : s[i] \in S})
Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
\* first pieces: the numbers 1, 2, ... in order, with zeros only where these outweigh the rest
FirstPieces == {s \in Seqs(0..(Firsts * MaxLen), MaxLen) : 0 \in Rng(s) => Count(s, {0}) > Count(s, 1..(Firsts * MaxLen))}
Differ(ss) == \A i, j \in DOMAIN ss : \A a \in DOMAIN ss[i], b \in DOMAIN ss[j] : (ss[i][a] = ss[j][b] /\ ss[i][a] # 0) => i = j /\ a = b
\* canonical: contents appear in the order 1, 2, ...
Flat(ss) == IF ss = << >> THEN << >> ELSE [i \in 1..Len(ss[1]) |-> ss[1][i]] \o (IF Len(ss) = 1 THEN << >> ELSE IF Len(ss) = 2 THEN ss[2] ELSE ss[2] \o ss[3])
Canonical(ss) == LET f == Flat(ss) IN \A i \in DOMAIN f : f[i] # 0 => f[i] <= 1 + Cardinality({f[j] : j \in 1..(i - 1)} \ {0})
New == 90..92          \* contents nobody has seen before
CopyPieces(known) == {s \in Seqs(known \cup New \cup {0}, MaxLen) :
                        /\ Count(s, New) < Count(s, known \cup {0})
                        /\ \A i, j \in DOMAIN s : s[i] \in New /\ s[i] = s[j] => i = j
                        /\ \A i \in DOMAIN s : s[i] \in New => \A n \in New : n < s[i] => \E j \in 1..(i - 1) : s[j] = n}
FirstSets == {ss \in [1..Firsts -> FirstPieces] : Differ(ss) /\ Canonical(ss)}
Place(ss, from) ==      \* the extents from, from + 1, ... one after the other
  [p \in 1..Len(Flat(ss)) |-> LET k == CHOOSE k \in DOMAIN ss : /\ p > Len(Flat(SubSeq(ss, 1, k - 1))) /\ p <= Len(Flat(SubSeq(ss, 1, k))) IN <<from + k - 1, p>>]
Wholes(ss) == {ss[i] : i \in DOMAIN ss} \ {s \in Rng(ss) : 0 \in Rng(s)}
MCInit ==
  /\ \E ss \in FirstSets :
      \E cs \in IF Together THEN {<< >>} \cup [1..1 -> Wholes(ss)] ELSE {<< >>} :
        LET all == ss \o cs IN
        /\ data = Flat(all) /\ place = Place(all, 1)
        /\ todo = 1..Len(all) /\ fresh = Len(all) + 1
  /\ idx = << >> /\ looked = << >> /\ phase = 1
\* more files are written when everything has settled; their new contents differ
Write ==
  /\ phase = 1 /\ Settled /\ phase' = 2
  /\ \E cs \in [1..Copies -> CopyPieces(Rng(data) \ {0})] :
      /\ \A i, j \in DOMAIN cs : i < j => Rng(cs[i]) \cap Rng(cs[j]) \cap New = {}
      /\ LET n == Len(data)
             f == Flat(cs)
             at == Place(cs, fresh) IN
         /\ data' = data \o f
         /\ place' = [p \in 1..(n + Len(f)) |-> IF p <= n THEN place[p] ELSE <<at[p - n][1], p>>]
         /\ todo' = fresh..(fresh + Copies - 1) /\ fresh' = fresh + Copies
  /\ UNCHANGED <<idx, looked>>
Scan == (\E w \in Workers : Act(w) \/ \E x \in todo : Look(w, x)) /\ UNCHANGED phase
MCSpec == MCInit /\ [][Scan \/ Write]_vars /\ WF_vars(Scan)
SharedAtRest == Settled => Shared
\* data never changes, and scanning comes to an end
Kept == [][\A b \in Blocks : data'[b] = data[b]]_vars
Ends == []<>Settled
=============================================================================
