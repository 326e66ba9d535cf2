------------------------------- MODULE Names -------------------------------
(* Finding an object by its identity.  The kernel tells which names lead to *)
(* it; by the time one of them is opened it may lead elsewhere, so what was *)
(* opened counts only when it turns out to be the object that was wanted.   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES want,    \* who -> the object being looked for
          left,    \* who -> names told and not tried yet
          found,   \* those whose object was opened
          place,   \* who -> <<subvolume, name>> -> the subvolume it was last told to be there
          fdt      \* descriptor -> what it is, what it was opened for (or None)
nvars == <<want, left, found, place, fdt>>
None == <<0, 0>>
NInit == want = << >> /\ left = << >> /\ found = {} /\ place = << >> /\ fdt = << >>
Put(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]
Del(f, k) == [q \in DOMAIN f \ {k} |-> f[q]]
Told(w, o, names) == want' = Put(want, w, o) /\ left' = Put(left, w, names) /\ found' = found \ {w} /\ UNCHANGED <<place, fdt>>
Place(w, nm, s) == place' = Put(place, w, Put(IF w \in DOMAIN place THEN place[w] ELSE << >>, nm, s)) /\ UNCHANGED <<want, left, found, fdt>>
Tried(w, nm) == left' = IF w \in DOMAIN left THEN [left EXCEPT ![w] = @ \ {nm}] ELSE left
OpenFile(w, fd, nm, o) == LET for == IF w \in DOMAIN want THEN want[w] ELSE None
  IN fdt' = Put(fdt, fd, [is |-> o, for |-> for]) /\ Tried(w, nm) /\ found' = (IF o = for THEN found \cup {w} ELSE found) /\ UNCHANGED <<want, place>>
\* names of directories on the way to a subvolume are told too; only the subvolume itself has to be right
OpenDir(w, fd, nm, last, o) == LET for == IF w \in DOMAIN place /\ last \in DOMAIN place[w] THEN <<place[w][last], 256>> ELSE None
  IN fdt' = Put(fdt, fd, [is |-> o, for |-> for]) /\ Tried(w, nm) /\ UNCHANGED <<want, place, found>>
Fail(w, nm) == Tried(w, nm) /\ UNCHANGED <<want, found, place, fdt>>
Shut(fd) == fdt' = Del(fdt, fd) /\ UNCHANGED <<want, left, found, place>>
Right(fd) == fd \in DOMAIN fdt => fdt[fd].is = fdt[fd].for
RightDir(fd) == fd \in DOMAIN fdt => fdt[fd].for \in {None, fdt[fd].is}
\* some name was not tried although none that was led to the object
GaveUp(w) == w \in DOMAIN want /\ w \notin found /\ left[w] # {}
=============================================================================
