--------------------------- MODULE CoverageTrace ---------------------------
EXTENDS Coverage, TraceBase
CONSTANT Check
vars == <<cvars, tr, pos>>
Is(p) == Check = p
Init == TraceInit /\ CInit
CSame == UNCHANGED cvars
Lines(l) == [r \in {l[i][1] : i \in DOMAIN l} |-> Tail(l[CHOOSE i \in DOMAIN l : l[i][1] = r])]
EvU == E.e = "u" /\ Change(E.f, E.m, E.big, E.x = 1 \/ (E.ro = 1 /\ Meta.wa = 1))
EvDrop == E.e = "drop" /\ Drop({E.f})
EvRo == /\ E.e = "ro"
        /\ owed' = IF Meta.wa = 1 THEN {o \in owed : o[1] \div 1000 # E.s} ELSE owed
        /\ trees' = Put(trees, E.s, E.v)
        /\ UNCHANGED <<file, known, lines, size>>
EvSub == /\ E.e = "sub"
         /\ trees' = IF E.v = 1 THEN Put(trees, E.s, E.ro) ELSE [r \in DOMAIN trees \ {E.s} |-> trees[r]]
         /\ owed' = IF E.v = 1 THEN owed ELSE {o \in owed : o[1] \div 1000 # E.s}
         /\ UNCHANGED <<file, known, lines, size>>
EvMany == E.e = "many" /\ Forget(E.x)
EvRd == E.e = "rd" /\ Examine({E.p[i] : i \in DOMAIN E.p})
EvOwn == E.e = "own" /\ Own({E.x[i] : i \in DOMAIN E.x})
EvDd == E.e = "dd" /\ IF E.f \in DOMAIN file THEN Replace(E.f, E.b, E.n) ELSE CSame
EvSave == /\ E.e = "save"
          /\ Holds(Is("C14") => Safe(Lines(E.l)))
          /\ Holds(Is("C15") => Moves(Lines(E.l)) /\ Real(Lines(E.l), E.tid))
          /\ lines' = Lines(E.l) /\ UNCHANGED <<file, owed, known, trees, size>>
EvLoad == /\ E.e = "load"
          /\ lines' = Lines(E.l) /\ UNCHANGED <<file, owed, known, trees, size>>
EvSeed == E.e = "seed" /\ lines' = Load(E.l) /\ UNCHANGED <<file, owed, known, trees, size>>
EvSettled == /\ E.e = "settled" /\ CSame
             /\ Holds(Is("C14") /\ E.ok = 1 => owed = {})
EvExit == /\ E.e = "exit" /\ CSame
          /\ Holds(Is("C15") /\ E.done = 1 /\ Meta.mode < 4 /\ Meta.wild = 0 => Complete(Meta.wa = 1))
EvBad == E.e = "bad" /\ ~Is("C15") /\ CSame
EvRest == E.e \in {"start", "end"} /\ CSame
TNext == \/ More /\ Advance /\ (EvU \/ EvDrop \/ EvRo \/ EvSub \/ EvMany \/ EvRd \/ EvOwn \/ EvDd \/ EvSave \/ EvLoad \/ EvSettled \/ EvSeed \/ EvExit \/ EvBad \/ EvRest)
         \/ Accepting /\ CSame
TSpec == Init /\ [][TNext]_vars
=============================================================================
