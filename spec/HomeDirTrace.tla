--------------------------- MODULE HomeDirTrace ---------------------------
EXTENDS HomeDir, TraceBase
VARIABLES worked, saved     \* in this life: user data was read; the progress file was replaced
vars == <<hvars, worked, saved, tr, pos>>
Init == TraceInit /\ HInit /\ worked = FALSE /\ saved = FALSE
Rest == UNCHANGED <<worked, saved>>
\* btrfs up to 5.16 flushes on rename, and fsync is best avoided there; later it is the only way to learn of write errors
Flushes == Meta.homefs = 0 /\ (Meta.k[1] < 5 \/ (Meta.k[1] = 5 /\ Meta.k[2] <= 16))
EvStart == E.e = "start" /\ worked' = FALSE /\ saved' = FALSE /\ UNCHANGED hvars
EvOld == E.e = "old" /\ dir' = Put(dir, E.n, E.i) /\ UNCHANGED <<has, need, hard>> /\ Rest
EvCreate == E.e = "create" /\ Create(E.n, E.i) /\ Holds(E.n \notin State) /\ Rest
EvWrite == E.e = "write" /\ Holds(Private(E.i)) /\ Write(E.i, E.off, E.want, E.got) /\ Rest
EvCut == E.e = "cut" /\ Holds(Private(E.i)) /\ Cut(E.i, E.n) /\ Rest
EvSync == E.e = "sync" /\ Sync(E.i) /\ Rest
EvUnlink == E.e = "unlink" /\ Holds(E.n \notin State) /\ Unlink(E.n) /\ Rest
EvRename == /\ E.e = "rename" /\ Rename(E.o, E.n)
            /\ Holds(E.o \notin State)
            /\ Holds(E.n \in State => Fit(E.o, Flushes))
            /\ saved' = (saved \/ E.n = "beescrawl.dat") /\ UNCHANGED worked
EvRd == E.e = "rd" /\ worked' = TRUE /\ UNCHANGED <<hvars, saved>>
\* a life that did something and ended well has left its progress behind, whatever the last one left lying around
EvExit == E.e = "exit" /\ UNCHANGED hvars /\ Rest /\ Holds(Meta.faults = 0 /\ E.st = 0 /\ worked => saved)
TNext == \/ More /\ Advance /\ (EvStart \/ EvOld \/ EvCreate \/ EvWrite \/ EvCut \/ EvSync \/ EvUnlink \/ EvRename \/ EvRd \/ EvExit)
         \/ Accepting /\ UNCHANGED <<hvars, worked, saved>>
TSpec == Init /\ [][TNext]_vars
=============================================================================
