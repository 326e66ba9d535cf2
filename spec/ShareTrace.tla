----------------------------- MODULE ShareTrace -----------------------------
EXTENDS Share, TraceBase
VARIABLES pairs,     \* <<content, place>> of the blocks reported at rest
          bare,      \* no block of zeros is stored
          lost,      \* something was not scanned because two workers got in each other's way
          quiet      \* everything is shared and nothing has been written since
vars == <<pairs, bare, lost, quiet, tr, pos>>
Init == TraceInit /\ pairs = {} /\ bare = TRUE /\ lost = FALSE /\ quiet = FALSE
        /\ data = << >> /\ place = << >> /\ todo = {} /\ idx = << >> /\ looked = << >> /\ fresh = 1
\* t: 0 hole, 1 stored, 2 preallocated, 3 inline, 4 compressed
EvEnd == /\ E.e = "end"
         /\ pairs' = pairs \cup {<<E.c[k], E.p[k]>> : k \in {k \in 1..E.n : E.t[k] \in {1, 4} /\ E.c[k] # 0}}
         /\ bare' = (bare /\ \A k \in 1..E.n : E.t[k] \in {1, 2, 4} => E.c[k] # 0)
         /\ UNCHANGED <<lost, quiet>>
EvSettled == /\ E.e = "settled"
             /\ Holds(E.ok = 1)                              \* further passes ask for nothing
             \* several workers at the same files may give up scans
             /\ lost' = (lost \/ (Meta.workers > 1 /\ E.exc > 0))
             /\ Holds(bare \/ lost')
             /\ Holds(Cardinality(pairs) = Cardinality({p[1] : p \in pairs}) \/ lost')      \* SharedPairs(pairs)
             /\ pairs' = {} /\ bare' = TRUE /\ quiet' = ~lost'
EvU == E.e = "u" /\ quiet' = FALSE /\ UNCHANGED <<pairs, bare, lost>>
EvStart == E.e = "start" /\ pairs' = {} /\ bare' = TRUE /\ UNCHANGED <<lost, quiet>>
EvDd == E.e = "dd" /\ Holds(~quiet) /\ UNCHANGED <<pairs, bare, lost, quiet>>
EvLast == E.e = "exit" /\ UNCHANGED <<pairs, bare, lost, quiet>>
TNext == ((More /\ Advance /\ (EvEnd \/ EvSettled \/ EvU \/ EvStart \/ EvDd \/ EvLast)) \/ (Accepting /\ UNCHANGED <<pairs, bare, lost, quiet>>)) /\ UNCHANGED svars
TSpec == Init /\ [][TNext]_<<vars, svars>>
=============================================================================
