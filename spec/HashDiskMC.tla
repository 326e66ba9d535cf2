---------------------------- MODULE HashDiskMC ----------------------------
(* Clients change two extents of one bucket each while a write-back thread *)
(* copies, writes and possibly fails.  dirty is what it still has to do.   *)
EXTENDS HashDisk
CONSTANTS MaxOps, NAddr, MaxFail
VARIABLES dirty, fl, n, fails, todo      \* what is left to write before stopping, <<-1>> while running
mvars == <<disk, vers, failed, bk, per, pr, dirty, fl, n, fails, todo>>
Running == todo = {-1}
None == [x |-> -1, copy |-> << >>]
Init == /\ ProcInit /\ failed = {} /\ bk = <<0, 1>> /\ per = 1 /\ disk = [b \in 0..1 |-> {}] /\ vers = [x \in 0..1 |-> << >>]
        /\ dirty = {} /\ fl = None /\ n = 0 /\ fails = 0 /\ todo = {-1}
Load(x) == ~Known(x) /\ (ReadOk(x) \/ ReadFails(x)) /\ UNCHANGED <<dirty, fl, n, fails, todo>>
Call == /\ Running /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED <<dvars, dirty, fl, fails, todo>>
        /\ \E th \in Th, op \in {"front", "erase", "find"}, h \in 1..2, a \in 1..NAddr : Open(th, op, h, 2 * a)
Act(th) == Do(th) /\ dirty' = dirty \cup {x \in Extents : vers'[x] # vers[x]} /\ UNCHANGED <<fl, n, fails, todo>>
Return(th) == pr[th].op # "none" /\ pr[th].st = DONE /\ pr' = [pr EXCEPT ![th] = Idle] /\ UNCHANGED <<dvars, dirty, fl, n, fails, todo>>
Copy(x) == fl = None /\ x \in dirty /\ (Running \/ x \in todo) /\ todo' = (IF Running THEN todo ELSE todo \ {x}) /\ dirty' = dirty \ {x} /\ fl' = [x |-> x, copy |-> Now(x)] /\ UNCHANGED <<dvars, pr, n, fails>>
Done == fl # None /\ Write(fl.x, Of(fl.x), fl.copy, TRUE) /\ fl' = None /\ UNCHANGED <<dirty, n, fails, todo>>
Fail == fl # None /\ fails < MaxFail /\ fails' = fails + 1 /\ WriteFails(fl.x) /\ dirty' = dirty \cup {fl.x} /\ fl' = None /\ UNCHANGED <<n, todo>>
Stop == Running /\ fl = None /\ Stopping /\ todo' = dirty /\ UNCHANGED <<dirty, fl, n, fails>>
\* only what a crash leaves is there afterwards
Again == fl = None /\ Start /\ dirty' = {} /\ todo' = {-1} /\ UNCHANGED <<fl, n, fails>>
Next == (\E x \in Extents : Load(x) \/ Copy(x)) \/ Call \/ (\E th \in Th : Act(th) \/ Return(th)) \/ Done \/ Fail \/ Stop \/ Again
Spec == Init /\ [][Next]_mvars
\* nothing to do: everything is in the file
NothingLost == \A x \in Extents : (Known(x) /\ x \notin dirty /\ fl.x # x) => Now(x) = vers[x][1]
Stopped == (todo = {} /\ fl = None) => \A x \in Extents : Written(x)
OnDisk == \A x \in Extents : (Known(x) /\ x \notin failed) => \/ \A b \in Of(x) : disk[b] = vers[x][1][b]
                                                          \/ vers[x][1] = [b \in Of(x) |-> {}]
\* what is about to be written is something the specification lets be written
MayWrite == fl # None => \E i \in 2..Len(vers[fl.x]) : vers[fl.x][i] = fl.copy
=============================================================================
