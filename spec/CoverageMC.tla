----------------------------- MODULE CoverageMC -----------------------------
(* A crawler over one tree: it hands extents in order of position to workers, *)
(* who finish in any order, while files are written, transactions commit, the *)
(* progress file is saved and the machine crashes.  What it saves must be     *)
(* Safe and only move Forward.  The file on disk stays safe between saves, too. *)
EXTENDS Coverage, TLC
CONSTANTS Files, MaxExtents, MaxTid, MaxCrash, Shortcut   \* Shortcut: an error to be found, for sanity runs; "" for none
VARIABLES tid,     \* the running transaction
          run,     \* <<>> when the daemon is not running, otherwise <<object, a, b>>: the next position and the window
          held,    \* extents handed out and not finished: <<object, extent>>
          disk,    \* the progress file
          ever,    \* started is constant within a pass
          crashes
mvars == <<cvars, tid, run, held, disk, ever, crashes>>
Key(o) == 5000 + o
Line(o, a, b) == <<Num(o), Num(0), Num(a), Num(b), Num(1)>>
MCInit == /\ CInit /\ tid = 2 /\ run = <<0, 0, 1>> /\ held = {} /\ disk = << >> /\ ever = 0 /\ crashes = 0
New == ever + 1
Write == /\ New <= MaxExtents /\ ever' = New
         /\ \E o \in Files : Change(Key(o), <<<<New, New * 1024, tid>>>>, << >>, FALSE)
         /\ UNCHANGED <<tid, run, held, disk, crashes>>
\* a copy of what another file has: nothing new is owed
Clone == /\ \E o, p \in Files : o # p /\ Key(p) \in DOMAIN file /\ Change(Key(o), <<<<file[Key(p)][1][1], file[Key(p)][1][2], tid>>>>, << >>, FALSE)
         /\ UNCHANGED <<tid, run, held, disk, crashes, ever>>
Tick == tid < MaxTid /\ tid' = tid + 1 /\ UNCHANGED <<cvars, run, held, disk, crashes, ever>>
Here(o) == Key(o) \in DOMAIN file /\ file[Key(o)][1][1] # 0 /\ file[Key(o)][1][3] >= run[2] /\ file[Key(o)][1][3] <= run[3]
Ahead == {o \in Files : o >= run[1] /\ Here(o)}
Least(s) == CHOOSE o \in s : \A p \in s : o <= p
\* the next extent is handed to a worker
Hand == /\ run # << >> /\ Ahead # {}
        /\ LET o == Least(Ahead) IN
           /\ run' = <<o + 1, run[2], run[3]>>
           /\ held' = held \cup {<<o, file[Key(o)][1][1]>>}
        /\ UNCHANGED <<cvars, tid, disk, ever, crashes>>
\* the worker reads it, if it is still there, and possibly replaces it
Finish == /\ \E h \in held :
               /\ held' = held \ {h}
               /\ \/ Examine({file[Key(h[1])][1][2]})
                  \/ /\ file[Key(h[1])][1][1] = h[2]
                     /\ Replace(Key(h[1]), 0, 1)
          /\ UNCHANGED <<tid, run, disk, ever, crashes>>
\* the pass is over when nothing is ahead and everything handed out is finished; the next one goes up to a generation that is there by now
Pass == /\ run # << >> /\ Ahead = {} /\ (held = {} \/ Shortcut = "pass")
        /\ \E b \in (run[3] + 1)..tid : run' = <<0, IF Shortcut = "window" THEN run[3] + 1 ELSE run[3], b>>
        /\ UNCHANGED <<cvars, tid, held, disk, ever, crashes>>
Pos == IF Shortcut = "hold" \/ held = {} THEN run[1] ELSE Least({h[1] : h \in held})
Save == /\ run # << >>
        /\ disk' = (5 :> Line(Pos, run[2], run[3]))
        /\ lines' = disk'
        /\ UNCHANGED <<file, owed, known, trees, size, tid, run, held, ever, crashes>>
Crash == /\ crashes < MaxCrash /\ run # << >> /\ crashes' = crashes + 1
         /\ run' = << >> /\ held' = {}
         /\ UNCHANGED <<cvars, tid, disk, ever>>
Start == /\ run = << >>
         /\ run' = IF 5 \in DOMAIN disk THEN <<disk[5][1][3], disk[5][3][3], disk[5][4][3]>> ELSE <<0, 0, 1>>
         /\ UNCHANGED <<cvars, tid, held, disk, ever, crashes>>
MCNext == Write \/ Clone \/ Tick \/ Hand \/ Finish \/ Pass \/ Save \/ Crash \/ Start
MCSpec == MCInit /\ [][MCNext]_mvars
SafeAtSave == Safe(disk)
\* the file on disk stays safe while nothing is saved: new data is never behind it
StepForward == [][disk' # disk /\ 5 \in DOMAIN disk => Forward(disk[5], disk'[5])]_mvars
=============================================================================
