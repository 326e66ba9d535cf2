----------------------------- MODULE NamesTrace -----------------------------
EXTENDS Names, TraceBase
vars == <<nvars, tr, pos>>
Init == TraceInit /\ NInit
\* never through a symbolic link, never into another filesystem where the kernel can see to that, never leaving a mark
Careful == E.nf = 1 /\ E.na = 1 /\ E.rw = 0 /\ (Meta.oa2 = 1 => E.sym = 1 /\ E.xd = 1)
EvTold == E.e = "ip" /\ Holds(RightDir(E.fd))
          /\ Holds(~GaveUp(E.t) \/ want[E.t] = E.o)
          /\ Told(E.t, E.o, {E.ps[k] : k \in DOMAIN E.ps})
EvPlace == E.e = "rb" /\ Place(E.t, E.nm, E.s)
EvOpen == E.e = "open" /\ Holds(Careful) /\ OpenFile(E.t, E.fd, E.nm, E.o)
EvOwn == E.e = "own" /\ OpenFile(E.t, E.fd, E.nm, E.o)      \* the daemon's own files
EvDir == E.e = "dir" /\ Holds(Careful) /\ OpenDir(E.t, E.fd, E.nm, E.last, E.o)
EvFail == E.e = "fail" /\ Fail(E.t, E.nm)
EvShut == E.e = "close" /\ Shut(E.fd)
EvUse == E.e = "use" /\ Holds(Right(E.fd)) /\ UNCHANGED nvars
TNext == \/ More /\ Advance /\ (EvTold \/ EvPlace \/ EvOpen \/ EvOwn \/ EvDir \/ EvFail \/ EvShut \/ EvUse)
         \/ Accepting /\ UNCHANGED nvars
TSpec == Init /\ [][TNext]_vars
=============================================================================
