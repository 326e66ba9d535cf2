------------------------------ MODULE DedupeMC ------------------------------
(* Two user files, writers that change them at any moment, and a daemon    *)
(* that obeys the guards of Dedupe: whatever the order, nobody can tell     *)
(* from the contents that it was there.                                     *)
EXTENDS Dedupe, TLC
CONSTANTS Users,      \* file numbers of user files
          NBlocks,    \* blocks in each
          Excl,       \* those excluded by attribute
          RO,         \* those in a read-only subvolume
          Contents,   \* 0 is a block of zeros
          MaxPhys     \* how much storage may be allocated altogether
VARIABLES want,       \* file -> the contents its users expect
          place,      \* file -> physical blocks as its users left them
          next        \* next unused physical block
T == 9                \* the temporary file
mvars == <<fvars, want, place, next>>
P0(f, b) == 1024 * f + b
First == [f \in Users |-> [sz |-> NBlocks * BLK, x |-> IF f \in Excl THEN 1 ELSE 0, ro |-> IF f \in RO THEN 1 ELSE 0,
                           m |-> [b \in 1..NBlocks |-> <<P0(f, b), 1, 1>>]]]
MInit == /\ file = First /\ know = << >> /\ chg = {} /\ pre = {} /\ tmp = {} /\ slow = {} /\ found = {} /\ home = {} /\ index = {}
         /\ used = << >> /\ due = << >> /\ rotog = {}
         /\ want = [f \in Users |-> [b \in 1..NBlocks |-> 1]] /\ next = 0
         /\ place = [f \in Users |-> [b \in 1..NBlocks |-> P0(f, b)]]
Fresh == 1024 * 20 + next
UWrite(f, b, c) == /\ next < MaxPhys /\ next' = next + 1
                   /\ UserSet(f, [file[f] EXCEPT !.m[b] = <<Fresh, c, 1>>])
                   /\ want' = [want EXCEPT ![f][b] = c] /\ place' = [place EXCEPT ![f][b] = Fresh]
UPre(f, b) == /\ next < MaxPhys /\ next' = next + 1
              /\ UserSet(f, [file[f] EXCEPT !.m[b] = <<Fresh, 0, 2>>])
              /\ want' = [want EXCEPT ![f][b] = 0] /\ place' = [place EXCEPT ![f][b] = Fresh]
\* the daemon
DRead(f, b) == Read(f, b - 1, <<file[f].m[b][2]>>) /\ UNCHANGED <<want, place, next>>
DTmp == T \notin tmp /\ TmpNew(T) /\ UNCHANGED <<want, place, next>>
DTmpReset == T \in tmp /\ (chg = {} => due[T] = {}) /\ TmpSize(T, BLK) /\ UNCHANGED <<want, place, next>>
\* a copy of something that was read before, or a hole
DCopy(f, b) == /\ T \in tmp /\ Len(file[T].m) <= 1 /\ next < MaxPhys /\ next' = next + 1
               /\ \E c \in Get(know, <<f, b - 1>>, {}) :
                    IF c = 0 THEN TmpSize(T, 2 * BLK) ELSE TmpWrite(T, 1, <<<<Fresh, c, 1>>>>, 2 * BLK)
               /\ UNCHANGED <<want, place>>
DLook(f, b, isslow) == /\ file[f].m[b][1] # 0
                       /\ Lookup(file[f].m[b][1], isslow, FALSE, {g \in Users : \E i \in 1..NBlocks : file[g].m[i][1] = file[f].m[b][1]})
                       /\ UNCHANGED <<want, place, next>>
Guards(s, sb, d, db) ==
  /\ WellFormed(s, sb * BLK, d, db * BLK, BLK) /\ Justified(s, sb, d, db, 1) /\ NotAlready(s, sb, d, db, 1)
  /\ Permitted(s, d, 1) /\ PreToHole(s, sb, d, db, 1) /\ Avoided(s, sb, 1, TRUE)
DShare(s, sb, d, db) ==
  /\ Guards(s, sb, d, db)
  /\ \/ Dedupe(s, sb, d, db, 1, TRUE)
     \/ Dedupe(s, sb, d, db, 1, FALSE)             \* the kernel found them different, or failed
  /\ UNCHANGED <<want, place, next>>
DRestart == NewLife /\ UNCHANGED <<want, place, next>>
MNext == \/ \E f \in Users, b \in 1..NBlocks : (\E c \in Contents : UWrite(f, b, c)) \/ UPre(f, b) \/ DRead(f, b) \/ DCopy(f, b) \/ DLook(f, b, TRUE) \/ DLook(f, b, FALSE)
         \/ DTmp \/ DTmpReset \/ DRestart
         \/ \E s \in Users \cup tmp, d \in Users, sb \in 0..NBlocks, db \in 0..NBlocks - 1 : DShare(s, sb, d, db)
MSpec == MInit /\ [][MNext]_mvars

\* C16: what users see is what users wrote
Unchanged == \A f \in Users : \A b \in 1..NBlocks : file[f].m[b][2] = want[f][b]
\* C20: excluded and read-only files keep their own storage, and lend it to nobody when excluded
Excluded == \A f \in Excl \cup RO : \A b \in 1..NBlocks : file[f].m[b][1] = place[f][b]
NotLent == \A f \in Excl : \A g \in Users \ {f} : \A b, c \in 1..NBlocks : file[g].m[c][1] # file[f].m[b][1]
\* preallocated space never carries data
PreIsZero == \A f \in Users : \A b \in 1..NBlocks : file[f].m[b][3] = 2 => file[f].m[b][2] = 0
\* C17: storage is only shared between equal blocks
OneContent == \A f, g \in Users : \A b, c \in 1..NBlocks : (file[f].m[b][1] # 0 /\ file[f].m[b][1] = file[g].m[c][1]) => file[f].m[b][2] = file[g].m[c][2]
\* C18: with nobody interfering, a copy that is dropped has been offered
Offers == chg = {} => \A f \in tmp : \A b \in DOMAIN file[f].m : (file[f].m[b][1] # 0 /\ b - 1 \notin due[f]) => b > 1
=============================================================================
