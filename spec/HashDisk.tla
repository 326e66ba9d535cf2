------------------------------ MODULE HashDisk ------------------------------
(* The hash index and its file.  The index is a set of pairs per bucket    *)
(* (buckets are not full here); 32 buckets make an extent, the unit of     *)
(* reading and writing.  vers[x] lists the contents extent x has had in    *)
(* memory, from the one last written (or read) to the present one.         *)
EXTENDS Procs
VARIABLES disk, vers, failed, bk, per
dvars == <<disk, vers, failed, bk, per>>
SetOf(s) == {s[i] : i \in DOMAIN s}
Ext(b) == b \div per
Buckets == DOMAIN disk
Of(x) == {b \in Buckets : Ext(b) = x}
Known(x) == vers[x] # << >>
Now(x) == vers[x][Len(vers[x])]
Clean(a) == IF a > 0 THEN a - (a % 2) ELSE a
\* marks for slow extents do not outlive a run; entries without a proper address mean nothing
Read(S) == {<<p[1], Clean(p[2])>> : p \in {q \in S : q[2] > 0}}

\* --- operations: pr[th].a is the hash, pr[th].b the address
Addrs(h) == {p[2] : p \in {q \in Now(Ext(bk[h]))[bk[h]] : q[1] = h}}
CONSTANT History       \* FALSE: what reaches the file is of no interest
Change(x, b, S) == vers' = [vers EXCEPT ![x] = IF History THEN Append(@, [Now(x) EXCEPT ![b] = S]) ELSE << [Now(x) EXCEPT ![b] = S] >>]
Do(th) ==
  LET h == pr[th].a  a == pr[th].b  b == bk[h]  x == Ext(b)  S == Now(x)[b]
  IN /\ pr[th].op # "none" /\ pr[th].st = 0 /\ Known(x) /\ UNCHANGED <<disk, failed, bk, per>>
     /\ CASE pr[th].op \in {"front", "random"} -> Change(x, b, S \cup {<<h, a>>}) /\ Ret(th, IF <<h, a>> \in S THEN 1 ELSE 0)
          [] pr[th].op = "erase" -> (IF <<h, a>> \in S THEN Change(x, b, S \ {<<h, a>>}) ELSE UNCHANGED vers) /\ Ret(th, 0)
          [] pr[th].op = "find" -> UNCHANGED vers /\ ToX(th, DONE, Addrs(h))

\* --- the file.  got: contents of the buckets first .. first + n - 1
ReadOk(x) == /\ UNCHANGED <<disk, failed, bk, per, pr>>
             /\ vers' = IF Known(x) THEN vers ELSE [vers EXCEPT ![x] = << [b \in Of(x) |-> Read(disk[b])] >>]
ReadFails(x) == /\ UNCHANGED <<disk, failed, bk, per, pr>>
                /\ vers' = IF Known(x) THEN vers ELSE [vers EXCEPT ![x] = << [b \in Of(x) |-> {}] >>]
\* what is written is something the extent contained since it was last written, and not before it changed
Write(x, B, got, whole) ==
  /\ Known(x) /\ B \subseteq Of(x) /\ UNCHANGED <<bk, per, pr>>
  /\ disk' = [b \in Buckets |-> IF b \in B THEN got[b] ELSE disk[b]]
  /\ LET M == {i \in 2..Len(vers[x]) : \A b \in B : vers[x][i][b] = got[b]}
         first == CHOOSE i \in M : \A j \in M : i <= j        \* taking a later one would allow less
     IN /\ M # {}
        /\ IF whole THEN vers' = [vers EXCEPT ![x] = SubSeq(@, first, Len(@))] /\ failed' = failed \ {x}
           ELSE UNCHANGED vers /\ failed' = failed \cup {x}
WriteFails(x) == Known(x) /\ Len(vers[x]) > 1 /\ failed' = failed \cup {x} /\ UNCHANGED <<disk, vers, bk, per, pr>>
Extents == DOMAIN vers
\* nothing is waiting to be written
Written(x) == x \in failed \/ ~Known(x) \/ Now(x) = vers[x][1]
Rest == AllIdle /\ \A x \in Extents : Written(x)
\* before it stops it tries once more to write what could not be written
Stopping == AllIdle /\ failed' = {} /\ UNCHANGED <<disk, vers, bk, per, pr>>
Start == AllIdle /\ vers' = [x \in Extents |-> << >>] /\ failed' = {} /\ UNCHANGED <<disk, bk, per, pr>>
=============================================================================
