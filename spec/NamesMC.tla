------------------------------ MODULE NamesMC ------------------------------
(* One who looks an object up and opens its names one after another, while *)
(* the names are moved about.                                              *)
EXTENDS Names
CONSTANTS NameSet, Objects, MaxMoves,
          Mistake     \* "" or "trust" (no look at what was opened), "stop" (at the first name that leads elsewhere), "once"
VARIABLES world,      \* name -> what it leads to, None for nothing
          moves, pc, used,
          steady      \* names that have led to the object since they were told
mvars == <<nvars, world, moves, pc, used, steady>>
Me == 1
Objs == {<<5, 1>>, <<5, 2>>, <<6, 1>>, <<0, 1>>}      \* another file, another subvolume, another filesystem
O == <<5, 1>>
MCInit == NInit /\ world \in [NameSet -> Objects \cup {None}] /\ moves = 0 /\ pc = "idle" /\ used = {} /\ steady = {}
Move == /\ moves < MaxMoves /\ moves' = moves + 1
        /\ \E n \in NameSet, o \in Objects \cup {None} : world' = [world EXCEPT ![n] = o] /\ steady' = IF o = O THEN steady ELSE steady \ {n}
        /\ UNCHANGED <<nvars, pc, used>>
Ask == /\ pc \in {"idle", "got", "lost"} /\ Told(Me, O, {n \in NameSet : world[n] = O}) /\ steady' = {n \in NameSet : world[n] = O}
       /\ pc' = "try" /\ UNCHANGED <<world, moves, used>>
Try == /\ pc = "try" /\ left[Me] # {}
       /\ \E n \in left[Me] :
            IF world[n] = None THEN Fail(Me, n) /\ pc' = (IF Mistake = "once" THEN "lost" ELSE "try")
            ELSE OpenFile(Me, 3, n, world[n]) /\ pc' = "look"
       /\ UNCHANGED <<world, moves, used, steady>>
Look == /\ pc = "look"
        /\ IF Right(3) \/ Mistake = "trust" THEN pc' = "got" /\ UNCHANGED nvars
           ELSE Shut(3) /\ pc' = (IF Mistake = "stop" THEN "lost" ELSE "try")
        /\ UNCHANGED <<world, moves, used, steady>>
Out == pc = "try" /\ left[Me] = {} /\ pc' = "lost" /\ UNCHANGED <<nvars, world, moves, used, steady>>
Use == pc = "got" /\ 3 \in DOMAIN fdt /\ used' = used \cup {fdt[3].is} /\ UNCHANGED <<nvars, world, moves, pc, steady>>
MCNext == Move \/ Ask \/ Try \/ Look \/ Out \/ Use
MCSpec == MCInit /\ [][MCNext]_mvars
OnlyWanted == used \subseteq {O}
\* when it could not be opened, no name led to it all the time
Usable == pc = "lost" => steady = {}
NoGivingUp == pc = "lost" => ~GaveUp(Me)
=============================================================================
