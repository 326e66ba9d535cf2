---------------------------- MODULE LimiterTrace ----------------------------
EXTENDS Limiter, TraceBase
vars == <<tr, pos>>
Ends == LET RECURSIVE Up(_) Up(n) == IF n > Len(Ev) THEN << >> ELSE (IF Ev[n].e = "lim" THEN <<Ev[n]>> ELSE << >>) \o Up(n + 1) IN Up(2)
TNext == \/ More /\ E.e \in {"lim", "fin"} /\ Advance
         \/ /\ pos = Len(Ev) + 1
            /\ NotTooFast(Ends, Meta.rate, Meta.burst, Meta.clients) /\ NotTooSlow(Ends, Meta.rate)
            /\ Accepting
TSpec == TraceInit /\ [][TNext]_vars
=============================================================================
