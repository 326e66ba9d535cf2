------------------------------ MODULE Dedupe ------------------------------
(* User files, the daemon's temporary files, and what the daemon may ask   *)
(* the kernel to do with them.  A file is a sequence of blocks             *)
(* <<physical block, content, type>>; content 0 is a block of zeros, the   *)
(* type is 0 hole, 1 regular, 2 preallocated, 3 inline, 4 compressed.      *)
(* Physical block numbers are never reused.  An extent is 1024 numbers.    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES file,    \* key -> [sz, x, ro, m]: size, excluded by attribute, in a read-only subvolume, blocks
          know,    \* <<key, block>> -> contents the daemon has read there
          chg,     \* files that somebody other than the daemon changed in this life of the daemon
          pre,     \* <<key, block>> that were preallocated at some time in this life
          tmp,     \* temporary files
          slow,    \* blocks whose reverse lookup through the index took too long
          found,   \* files that a successful reverse lookup through the index named in this life
          home,    \* the daemon's own files, when they are on the same filesystem
          index,   \* of these, the index
          used,    \* extent -> [gain, cost]: places where a duplicate or a hole replaced one of its blocks / copies that did
          due,     \* temporary file -> blocks holding a copy that has not yet been offered for sharing
          rotog    \* subvolumes whose read-only flag changed in this life
lvars == <<slow, found>>
hvars == <<home, index>>
fvars == <<file, know, chg, pre, tmp, lvars, hvars, used, due, rotog>>
BLK == 4096
MaxLen == 16777216
Hole == <<0, 0, 0>>
NB(len) == (len + BLK - 1) \div BLK
Ext(p) == p \div 1024
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]
Blk(f, b) == IF f \in DOMAIN file /\ b < Len(file[f].m) THEN file[f].m[b + 1] ELSE Hole
Sz(f) == IF f \in DOMAIN file THEN file[f].sz ELSE 0
DInit == /\ file = << >> /\ know = << >> /\ chg = {} /\ pre = {} /\ tmp = {} /\ slow = {} /\ found = {} /\ home = {} /\ index = {} /\ used = << >> /\ due = << >> /\ rotog = {}

\* --- the world
PreOf(f, m) == {<<f, b - 1>> : b \in {i \in DOMAIN m : m[i][3] = 2}}
UserSet(f, r) == /\ file' = Put(file, f, r)
                 /\ chg' = chg \cup {f}
                 /\ pre' = pre \cup PreOf(f, r.m)
                 /\ UNCHANGED <<know, tmp, lvars, hvars, used, due, rotog>>
\* a new life of the daemon knows nothing; temporary files of the last one are gone
NewLife == /\ know' = << >> /\ chg' = {} /\ rotog' = {} /\ slow' = {} /\ found' = {} /\ due' = << >>
           /\ file' = [f \in DOMAIN file \ tmp |-> file[f]] /\ tmp' = {}
           /\ pre' = UNION {PreOf(f, file[f].m) : f \in DOMAIN file \ tmp}
           /\ UNCHANGED <<used, hvars>>
\* --- the daemon
Read(f, b, cs) == /\ know' = [q \in DOMAIN know \cup {<<f, b + i - 1>> : i \in DOMAIN cs} |->
                                Get(know, q, {}) \cup (IF q[1] = f /\ q[2] >= b /\ q[2] < b + Len(cs) THEN {cs[q[2] - b + 1]} ELSE {})]
                  /\ UNCHANGED <<file, chg, pre, tmp, lvars, hvars, used, due, rotog>>
TmpNew(f) == /\ tmp' = tmp \cup {f} /\ file' = Put(file, f, [sz |-> 0, x |-> 0, ro |-> 0, m |-> << >>])
             /\ due' = Put(due, f, {})
             /\ UNCHANGED <<know, chg, pre, lvars, hvars, used, rotog>>
TmpGone(f) == /\ tmp' = tmp \ {f} /\ file' = [g \in DOMAIN file \ {f} |-> file[g]]
              /\ due' = [g \in DOMAIN due \ {f} |-> due[g]]
              /\ UNCHANGED <<know, chg, pre, lvars, hvars, used, rotog>>
\* truncation drops blocks; growth adds holes
Resize(m, n) == [i \in 1..NB(n) |-> IF i <= Len(m) THEN m[i] ELSE Hole]
TmpSize(f, n) == /\ f \in tmp
                 /\ file' = [file EXCEPT ![f].sz = n, ![f].m = Resize(@, n)]
                 /\ due' = [due EXCEPT ![f] = {b \in @ : b < NB(n)}]
                 /\ UNCHANGED <<know, chg, pre, tmp, lvars, hvars, used, rotog>>
TmpWrite(f, b, new, end) ==
  /\ f \in tmp
  /\ LET m == file[f].m
         n == IF Len(m) > b + Len(new) THEN Len(m) ELSE b + Len(new) IN
     file' = [file EXCEPT ![f].m = [i \in 1..n |-> IF i > b /\ i <= b + Len(new) THEN new[i - b] ELSE IF i <= Len(m) THEN m[i] ELSE Hole],
                          ![f].sz = IF end > @ THEN end ELSE @]
  /\ due' = [due EXCEPT ![f] = @ \cup {b + i - 1 : i \in {j \in DOMAIN new : new[j][2] # 0}}]
  /\ UNCHANGED <<know, chg, pre, tmp, lvars, hvars, used, rotog>>

\* the kernel shares n blocks atomically, and only when the contents are the same
Same(s, sb, d, db, n) == \A k \in 0..n - 1 : Blk(s, sb + k)[2] = Blk(d, db + k)[2]
Count(s, sb, d, db, n) ==
  LET touched == {k \in 0..n - 1 : Blk(d, db + k)[1] # 0 /\ Blk(d, db + k)[1] # Blk(s, sb + k)[1]}
      exts == {Ext(Blk(d, db + k)[1]) : k \in touched}
      of(x) == {k \in touched : Ext(Blk(d, db + k)[1]) = x}
      copied(x) == {k \in of(x) : s \in tmp /\ Blk(s, sb + k)[1] # 0}
      copies(x) == {Blk(s, sb + k)[1] : k \in copied(x)}
      gains(x) == {<<d, db + k>> : k \in of(x) \ copied(x)}
      old(x) == Get(used, x, [gain |-> {}, cost |-> {}]) IN
  [x \in DOMAIN used \cup exts |-> [gain |-> old(x).gain \cup (IF x \in exts THEN gains(x) ELSE {}), cost |-> old(x).cost \cup (IF x \in exts THEN copies(x) ELSE {})]]
Share(s, sb, d, db, n) ==
  /\ file' = [file EXCEPT ![d].m = [i \in DOMAIN @ |-> IF i > db /\ i <= db + n THEN Blk(s, sb + i - 1 - db) ELSE @[i]]]
  /\ used' = Count(s, sb, d, db, n)
\* a request from elsewhere may replace what another copy was made for: that copy need not be offered any more
Offered(s, sb, n) == due' = [f \in DOMAIN due |-> IF f = s THEN due[f] \ {sb + k : k \in 0..n - 1} ELSE {}]
Dedupe(s, sb, d, db, n, ok) ==
  /\ IF ok /\ s \in DOMAIN file /\ d \in DOMAIN file
     THEN Same(s, sb, d, db, n) /\ Share(s, sb, d, db, n)
     ELSE UNCHANGED <<file, used>>
  /\ Offered(s, sb, n)
  /\ UNCHANGED <<know, chg, pre, tmp, lvars, hvars, rotog>>
\* no copy is under way: the lookup is for a block the index named, not for the block being replaced
Searching == \A f \in tmp : file[f].sz <= BLK
\* a reverse lookup of one block through the index: it may be slow, fail, or name too many references
Lookup(p, isslow, many, fs) ==
  /\ slow' = IF isslow /\ Searching THEN slow \cup {p} ELSE slow
  /\ found' = IF isslow \/ many THEN found ELSE found \cup fs
  /\ UNCHANGED <<file, know, chg, pre, tmp, hvars, used, due, rotog>>
\* the daemon's own files on the filesystem it works on: their contents come and go as it pleases
HomeNew(f) == /\ home' = home \cup {f} /\ file' = Put(file, f, [sz |-> 0, x |-> 0, ro |-> 0, m |-> << >>])
              /\ UNCHANGED <<know, chg, pre, tmp, lvars, index, used, due, rotog>>
HomeWrite(f, b, new, end) ==
  /\ f \in home
  /\ LET m == file[f].m
         n == IF Len(m) > b + Len(new) THEN Len(m) ELSE b + Len(new) IN
     file' = [file EXCEPT ![f].m = [i \in 1..n |-> IF i > b /\ i <= b + Len(new) THEN new[i - b] ELSE IF i <= Len(m) THEN m[i] ELSE Hole],
                          ![f].sz = IF end > @ THEN end ELSE @]
  /\ UNCHANGED <<know, chg, pre, tmp, lvars, hvars, used, due, rotog>>
Index(f) == /\ home' = home \cup {f} /\ index' = index \cup {f} /\ file' = Put(file, f, [sz |-> 0, x |-> 1, ro |-> 0, m |-> << >>])
            /\ UNCHANGED <<know, chg, pre, tmp, lvars, used, due, rotog>>
DSame == UNCHANGED fvars

\* --- what a request must satisfy
Calm(f) == f \notin chg /\ f \notin home
\* C17
WellFormed(s, so, d, do, len) ==
  /\ len > 0 /\ len <= MaxLen /\ so % BLK = 0 /\ do % BLK = 0
  /\ s = d => (so + len <= do \/ do + len <= so)
  /\ Calm(s) => so + len <= Sz(s)
  /\ Calm(d) => do + len <= Sz(d)
  /\ len % BLK = 0 \/ ((Calm(s) => so + len = Sz(s)) /\ (Calm(d) => do + len = Sz(d)))
Known(f, b) == IF f \in tmp THEN {Blk(f, b)[2]} ELSE Get(know, <<f, b>>, {}) \cup (IF <<f, b>> \in pre THEN {0} ELSE {})
Justified(s, sb, d, db, n) == \A k \in 0..n - 1 : Known(s, sb + k) \cap Known(d, db + k) # {}
NotAlready(s, sb, d, db, n) == (Calm(s) /\ Calm(d)) => \E k \in 0..n - 1 : Blk(s, sb + k)[1] # Blk(d, db + k)[1] \/ Blk(s, sb + k)[1] = 0
\* C20
X(f) == f \in DOMAIN file /\ file[f].x = 1
Permitted(s, d, wa) == /\ ~X(s) /\ ~X(d) /\ d \in DOMAIN file \ tmp
                       /\ (wa = 1 /\ (d \div 1000) \notin rotog) => file[d].ro = 0
\* preallocated space is only ever given up, never filled
PreToHole(s, sb, d, db, n) == \A k \in 0..n - 1 : (Calm(d) /\ Blk(d, db + k)[3] = 2) => Blk(s, sb + k)[1] = 0
\* C24: a source comes from a lookup that succeeded; blocks found to be slow are not used again
\* (whole compressed extents are looked up as one, so this says nothing about their blocks)
Avoided(s, sb, n, one) == s \in tmp \/ (s \in found /\ (one => \A k \in 0..n - 1 : Blk(s, sb + k)[3] # 4 => Blk(s, sb + k)[1] \notin slow))
\* C18: never copy more than what is freed
Worthwhile == \A x \in DOMAIN used : Cardinality(used[x].cost) <= Cardinality(used[x].gain)
NoCopiesLeft == \A f \in tmp : \A b \in DOMAIN file[f].m : file[f].m[b][1] = 0
=============================================================================
