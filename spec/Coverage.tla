----------------------------- MODULE Coverage -----------------------------
(* What the daemon owes its users: every extent that appears in a file it   *)
(* may work on is examined, and a saved restart position never lies beyond  *)
(* one that has not been.  A tree is scanned in passes: the pass <<a, b>>   *)
(* covers generations a to b, at positions ordered like <<object, offset>>. *)
(* Numbers from the progress file are triples of 22 bit digits.             *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES file,    \* key -> sequence of blocks <<extent, physical block, generation>>, extent 0 when nothing is owed for it
          owed,    \* <<file, extent>>: the extent appeared first in this file, is there ever since, and has not been looked at
          known,   \* extents that have appeared somewhere
          lines,   \* tree -> its line in the progress file, as of the last save or load
          trees,   \* the subvolumes that exist -> 1 if read only
          size     \* extent -> blocks on disk, where it is more than 32
cvars == <<file, owed, known, lines, trees, size>>
Digit == 4194304
Num(n) == <<0, n \div Digit, n % Digit>>
Less(x, y) == \/ x[1] < y[1]
              \/ x[1] = y[1] /\ x[2] < y[2]
              \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]
LessEq(x, y) == x = y \/ Less(x, y)
\* a line is <<object, offset, a, b, started>>; a position is <<object, offset>>
Before(o1, f1, o2, f2) == Less(o1, o2) \/ (o1 = o2 /\ Less(f1, f2))
\* what the line claims has been done: everything of earlier passes, and of this pass up to the position.
\* The newest generation of a pass may still have been growing; the next pass starts with it again.
Claims(l, o, f, g) == Less(g, l[3]) \/ (Less(g, l[4]) /\ Before(o, f, l[1], l[2]))
\* C15: a line only moves forward (an object may be begun again); the next pass starts where this one ended
Forward(l, m) == \/ m[3] = l[3] /\ m[4] = l[4] /\ ~Less(m[1], l[1])
                 \/ LessEq(l[4], m[3]) /\ LessEq(m[3], m[4])
                 \/ m[3] = l[3] /\ LessEq(l[4], m[4]) /\ l[1] = Num(0)        \* set aside while read only
\* C15: reading back what was saved, by this or an older version.  w: the words of a line, each with the number that follows it
Top == <<1048575, 4194303, 4194303>>
Has(w, k) == \E i \in DOMAIN w : w[i][1] = k
Val(w, k) == LET i == CHOOSE i \in DOMAIN w : w[i][1] = k IN w[i][2]
Either(w, k1, k2) == IF Has(w, k1) THEN Val(w, k1) ELSE Val(w, k2)
Good(w) == /\ \A i \in DOMAIN w : w[i][2] # << >>
           /\ \A i, j \in DOMAIN w : i # j => w[i][1] # w[j][1]
           /\ Has(w, "root") /\ Has(w, "objectid") /\ Has(w, "offset")
           /\ Has(w, "gen_current") \/ Has(w, "min_transid")
           /\ Has(w, "gen_next") \/ Has(w, "max_transid")
Read(w) == LET a0 == Either(w, "gen_current", "min_transid")
               b0 == Either(w, "gen_next", "max_transid")
               a == IF a0 = Top THEN Num(0) ELSE a0
               b == IF b0 = Top THEN a ELSE b0
           IN <<Val(w, "objectid"), Val(w, "offset"), IF Less(b, a) THEN b ELSE a, b, IF Has(w, "started") THEN Val(w, "started") ELSE << >> >>
\* lines up to the first one that makes no sense
Readable(ws) == {i \in DOMAIN ws : \A j \in 1..i : (ws[j] = << >> /\ j = Len(ws)) \/ Good(ws[j])} \ {i \in DOMAIN ws : ws[i] = << >>}
RootOf(w) == Val(w, "root")[3]
Load(ws) == [r \in {RootOf(ws[i]) : i \in Readable(ws)} |-> Read(ws[CHOOSE i \in Readable(ws) : RootOf(ws[i]) = r])]
\* the same pass over a tree began at the same time, unless it has not begun
Kept(l, m) == m[3] = l[3] /\ m[4] = l[4] /\ l[1] # Num(0) /\ l[5] # << >> => m[5] = l[5]
CInit == file = << >> /\ owed = {} /\ known = {} /\ lines = << >> /\ trees = << >> /\ size = << >>
Put(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Owed(f) == {o \in owed : o[1] = f}
In(f, m) == {<<f, m[b][1]>> : b \in {i \in DOMAIN m : m[i][1] # 0}}
\* the contents of a file change; x: it may not be worked on at all
Change(f, m, big, x) == /\ file' = Put(file, f, m)
                   /\ owed' = (owed \ Owed(f)) \cup (IF x THEN {} ELSE {o \in In(f, m) : o \in owed \/ o[2] \notin known})
                   /\ known' = known \cup {o[2] : o \in In(f, m)}
                   /\ size' = [q \in DOMAIN size \cup {big[i][1] : i \in DOMAIN big} |->
                                 IF \E i \in DOMAIN big : big[i][1] = q THEN big[CHOOSE i \in DOMAIN big : big[i][1] = q][2] ELSE size[q]]
                   /\ UNCHANGED <<lines, trees>>
\* the file is out of reach, or was for a time
Drop(fs) == owed' = {o \in owed : o[1] \notin fs} /\ UNCHANGED <<file, known, lines, trees, size>>
\* the extent is out of reach
Forget(x) == owed' = {o \in owed : o[2] # x} /\ UNCHANGED <<file, known, lines, trees, size>>
Own(xs) == known' = known \cup xs /\ UNCHANGED <<file, owed, lines, trees, size>>
\* the daemon replaces blocks b+1..b+n of f by something it has seen elsewhere
Replace(f, b, n) ==
  /\ f \in DOMAIN file
  /\ LET m == [i \in DOMAIN file[f] |-> IF i > b /\ i <= b + n THEN <<0, 0, 0>> ELSE file[f][i]] IN
     file' = [file EXCEPT ![f] = m] /\ owed' = (owed \ Owed(f)) \cup (In(f, m) \cap owed)
  /\ UNCHANGED <<known, lines, trees, size>>
Blocks(f, x) == {b \in DOMAIN file[f] : file[f][b][1] = x}
\* blocks ps are read: these extents are looked at (an examination ends early where it meets what is in the index already)
Examine(ps) == owed' = {o \in owed : \A b \in Blocks(o[1], o[2]) : file[o[1]][b][2] \notin ps} /\ UNCHANGED <<file, known, lines, trees, size>>
Gen(o) == LET b == CHOOSE b \in Blocks(o[1], o[2]) : TRUE IN file[o[1]][b][3]
First(o) == CHOOSE b \in Blocks(o[1], o[2]) : \A c \in Blocks(o[1], o[2]) : b <= c
\* C14 for a set of lines: nothing that is owed lies behind them.  Trees 250 to 255 go over extents by size.
Tier(x) == LET n == Get(size, x, 1) IN IF n <= 32 THEN 255 ELSE IF n <= 128 THEN 254 ELSE IF n <= 512 THEN 253 ELSE IF n <= 2048 THEN 252 ELSE 251
Safe(ls) ==
  \A o \in owed :
     \A r \in DOMAIN ls :
        IF r >= 250 /\ r <= 255
        THEN Tier(o[2]) = r => ~Claims(ls[r], Num(o[2] * 4096), Num(0), Num(Gen(o)))
        ELSE o[1] \div 1000 = r => ~Claims(ls[r], Num(o[1] % 1000), Num((First(o) - 1) * 4096), Num(Gen(o)))
Moves(ls) == \A r \in DOMAIN ls \cap DOMAIN lines : Forward(lines[r], ls[r]) /\ Kept(lines[r], ls[r])
\* no pass covers generations that do not exist yet
Real(ls, tid) == \A r \in DOMAIN ls : LessEq(ls[r][4], Num(tid)) \/ (r \in DOMAIN lines /\ lines[r][4] = ls[r][4])
Tiers == 250..255
\* when everything is at rest, passes by subvolume have a line for the subvolumes that exist and no others, which covers all there is
Complete(wa) ==
  /\ DOMAIN lines \ Tiers \subseteq DOMAIN trees \/ Cardinality(DOMAIN lines) = 1
  /\ \A r \in DOMAIN trees : (wa /\ trees[r] = 1) \/
        /\ r \in DOMAIN lines
        /\ \A f \in DOMAIN file : f \div 1000 = r => \A b \in DOMAIN file[f] : file[f][b][1] # 0 => LessEq(Num(file[f][b][3]), lines[r][4])
=============================================================================
