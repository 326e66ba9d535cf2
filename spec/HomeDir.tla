----------------------------- MODULE HomeDir -----------------------------
(* The daemon's home directory.  State files are replaced as a whole: a   *)
(* file takes over the name only when everything written to it is there,  *)
(* and is durable wherever the filesystem does not see to that itself.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT State          \* names of the files that are replaced as a whole
VARIABLES dir,          \* name -> file
          has, need,    \* file -> bytes that are there, bytes that were to be there
          hard          \* files all of whose bytes are durable
hvars == <<dir, has, need, hard>>
HInit == dir = << >> /\ has = << >> /\ need = << >> /\ hard = {}
Put(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]
Del(f, k) == [q \in DOMAIN f \ {k} |-> f[q]]
Max(a, b) == IF a > b THEN a ELSE b
Names(f) == {n \in DOMAIN dir : dir[n] = f}
\* nothing is written to a file that has such a name
Private(f) == Names(f) \cap State = {}
Create(n, f) == /\ n \notin DOMAIN dir /\ dir' = Put(dir, n, f) /\ has' = Put(has, f, 0) /\ need' = Put(need, f, 0) /\ hard' = hard \ {f}
Write(f, off, want, got) ==
  IF f \notin DOMAIN has THEN UNCHANGED hvars
  ELSE /\ has' = [has EXCEPT ![f] = IF off <= @ THEN Max(@, off + got) ELSE @]      \* no gaps
       /\ need' = [need EXCEPT ![f] = Max(@, off + want)]
       /\ hard' = hard \ {f} /\ UNCHANGED dir
Sync(f) == hard' = hard \cup {f} /\ UNCHANGED <<dir, has, need>>
Cut(f, n) == IF f \notin DOMAIN has THEN UNCHANGED hvars
             ELSE has' = [has EXCEPT ![f] = IF @ < n THEN @ ELSE n] /\ need' = [need EXCEPT ![f] = n] /\ hard' = hard \ {f} /\ UNCHANGED dir
Unlink(n) == dir' = Del(dir, n) /\ UNCHANGED <<has, need, hard>>
Rename(o, n) == /\ o \in DOMAIN dir
                /\ dir' = Put(Del(dir, o), n, dir[o])
                /\ UNCHANGED <<has, need, hard>>
Whole(f) == has[f] = need[f] /\ has[f] > 0
\* the filesystem makes the file durable before it takes over another's name: no fsync is needed, and none must fail unnoticed
Fit(o, flushes) == LET f == dir[o] IN Whole(f) /\ (f \in hard \/ flushes)
=============================================================================
