----------------------------- MODULE HomeDirMC -----------------------------
(* Saving with steps that fail, and a machine that may crash between any    *)
(* two of them and forget what was not durable.  What is under the name is  *)
(* always some complete version that was saved, never an older one than     *)
(* the last that is known to be durable.                                    *)
EXTENDS HomeDir
CONSTANTS Kinds, MaxFiles, MaxCrash,
          Mistake      \* "" or what the daemon does wrong
VARIABLES kind,        \* "plain", "old" btrfs, "new" btrfs
          pc, next, cur, crashes,
          disk,        \* what the directory looks like after a crash at the earliest
          lost         \* files whose bytes were lost
mvars == <<hvars, kind, pc, next, cur, crashes, disk, lost>>
N == "s"  T == "t"
Flush == kind = "old"
Bytes == 2
MCInit == HInit /\ kind \in Kinds /\ pc = "idle" /\ next = 1 /\ cur = 0 /\ crashes = 0 /\ disk = << >> /\ lost = {}
Same == UNCHANGED <<kind, crashes, lost>>
Begin == pc = "idle" /\ next <= MaxFiles /\ pc' = "rm" /\ UNCHANGED <<hvars, next, cur, disk>> /\ Same
Rm == pc = "rm" /\ (IF T \in DOMAIN dir /\ Mistake # "leftover" THEN Unlink(T) ELSE UNCHANGED hvars) /\ pc' = "new" /\ UNCHANGED <<next, cur, disk>> /\ Same
New == /\ pc = "new" /\ (IF T \in DOMAIN dir THEN pc' = "idle" /\ UNCHANGED <<hvars, next, cur>>
                         ELSE Create(T, next) /\ cur' = next /\ next' = next + 1 /\ pc' = "wr") /\ UNCHANGED disk /\ Same
Fail == pc \in {"new", "wr", "sync", "mv"} /\ pc' = "idle" /\ UNCHANGED <<hvars, next, cur, disk>> /\ Same
Wr == /\ pc = "wr" /\ \E got \in 0..Bytes : Write(cur, 0, Bytes, got) /\ pc' = (IF got = Bytes \/ Mistake = "short" THEN "sync" ELSE "idle")
      /\ UNCHANGED <<next, cur, disk>> /\ Same
Fsync == pc = "sync" /\ pc' = "mv" /\ (IF Flush \/ Mistake = "nosync" THEN UNCHANGED hvars ELSE Sync(cur)) /\ UNCHANGED <<next, cur, disk>> /\ Same
Mv == pc = "mv" /\ (Mistake # "" \/ Fit(T, Flush)) /\ Rename(T, N) /\ pc' = "idle" /\ UNCHANGED <<next, cur, disk>> /\ Same
\* directory changes become durable at any time, in order; a flush on rename comes with that
Commit == disk # dir /\ disk' = dir /\ UNCHANGED <<pc, next, cur>> /\ Same
          /\ IF Flush /\ N \in DOMAIN dir THEN Sync(dir[N]) ELSE UNCHANGED hvars
\* after a crash, the directory is an earlier one and files that are not durable may have anything in them
Crash == /\ crashes < MaxCrash /\ crashes' = crashes + 1 /\ dir' = disk /\ pc' = "idle"
         /\ lost' = lost \cup ({disk[n] : n \in DOMAIN disk} \ hard)
         /\ UNCHANGED <<has, need, hard, kind, next, cur, disk>>
MCNext == Begin \/ Rm \/ New \/ Fail \/ Wr \/ Fsync \/ Mv \/ Commit \/ Crash
MCSpec == MCInit /\ [][MCNext]_mvars
Readable == N \in DOMAIN dir => Whole(dir[N]) /\ dir[N] \notin lost
NotOlder == N \in DOMAIN disk => (N \in DOMAIN dir' /\ dir'[N] >= disk[N])
Stays == [][NotOlder]_mvars
\* a temporary file that was left behind never stops the next save
CanSave == pc = "new" => T \notin DOMAIN dir
=============================================================================
