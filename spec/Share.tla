------------------------------- MODULE Share -------------------------------
(* What scanning leaves behind when nobody else writes: blocks of files     *)
(* with their contents and the places they are stored at, extents waiting   *)
(* to be scanned, and the index from contents to places.                    *)
(*                                                                          *)
(* Files are one line of blocks here.  cut[b] is the extent a block was     *)
(* written in; a place is <<extent, block>>, a hole is <<0, 0>>.            *)
EXTENDS Naturals, FiniteSets
VARIABLES data,      \* block -> content (0: zeros)
          place,     \* block -> place
          todo,      \* extents which have not been scanned
          idx,       \* content -> places (known to the index)
          looked,    \* worker -> what it found for the extent it is scanning
          fresh      \* number for the next extent
svars == <<data, place, todo, idx, looked, fresh>>
Hole == <<0, 0>>
Blocks == DOMAIN data
In(x) == {b \in Blocks : place[b][1] = x}
Known(c) == IF c \in DOMAIN idx THEN idx[c] ELSE {}

\* The promise: equal blocks share their storage, zeros have none
SharedPairs(pairs) == \A p, q \in pairs : p[1] = q[1] => p[2] = q[2]
Pairs == {<<data[b], place[b]>> : b \in {b \in Blocks : data[b] # 0}}
Shared == SharedPairs(Pairs) /\ \A b \in Blocks : data[b] = 0 => place[b] = Hole

\* A worker looks up every block of an extent ...
Look(w, x) ==
  /\ w \notin DOMAIN looked /\ x \in todo /\ \A v \in DOMAIN looked : looked[v].x # x
  /\ todo' = todo \ {x}
  /\ LET already == \E b \in In(x) : data[b] # 0 /\ place[b] \in Known(data[b])
         dup == {b \in In(x) : data[b] # 0 /\ Known(data[b]) # {}}
         zero == {b \in In(x) : data[b] = 0} IN
     \E match \in [dup -> UNION {Known(data[b]) : b \in dup}] :
       /\ \A b \in dup : match[b] \in Known(data[b])
       /\ looked' = [v \in DOMAIN looked \cup {w} |-> IF v = w THEN [x |-> x, skip |-> already, dup |-> dup, zero |-> zero, match |-> match] ELSE looked[v]]
  /\ UNCHANGED <<data, place, idx, fresh>>
\* ... and then replaces what is known and the zeros, copying the rest,
\* unless more would be copied than replaced; an extent kept as it is is remembered
Act(w) ==
  /\ w \in DOMAIN looked
  /\ LET l == looked[w]
         x == l.x
         keep == In(x) \ (l.dup \cup l.zero)
         whole == l.skip \/ l.dup \cup l.zero = {} \/ Cardinality(keep) > Cardinality(l.dup \cup l.zero) IN
     /\ IF whole
        THEN /\ idx' = IF l.skip THEN idx ELSE [c \in DOMAIN idx \cup ({data[b] : b \in In(x)} \ {0}) |-> Known(c) \cup {place[b] : b \in {b \in In(x) : data[b] = c}}]
             /\ UNCHANGED <<place, todo, fresh>>
        ELSE /\ place' = [b \in Blocks |-> IF b \in l.dup THEN l.match[b] ELSE IF b \in l.zero THEN Hole ELSE IF b \in keep THEN <<fresh, b>> ELSE place[b]]
             /\ todo' = IF keep = {} THEN todo ELSE todo \cup {fresh}
             /\ fresh' = fresh + 1
             /\ UNCHANGED idx
     /\ looked' = [v \in DOMAIN looked \ {w} |-> looked[v]]
  /\ UNCHANGED data
Settled == todo = {} /\ looked = << >>
=============================================================================
