------------------------------ MODULE Progress ------------------------------
(* The progress tracker: workers hold positions; begin is the first        *)
(* position still held (or end, when none is); end never goes back.        *)
EXTENDS Procs
CONSTANT MaxV
VARIABLES held, endv         \* held: how many holders each position has
pgvars == <<held, endv, pr>>
PInit == held = [v \in 0..MaxV |-> 0] /\ endv = 0 /\ ProcInit
Held == {v \in 0..MaxV : held[v] > 0}
BeginV == IF Held = {} THEN endv ELSE CHOOSE v \in Held : \A w \in Held : v <= w
StepHold(h) == /\ At(h, {"hold"}, 0) /\ Ret(h, 0)
               /\ held' = [held EXCEPT ![pr[h].a] = @ + 1]
               /\ endv' = IF pr[h].a > endv THEN pr[h].a ELSE endv
StepDrop(h, v) == /\ At(h, {"drop"}, 0) /\ Ret(h, 0)
                  /\ held[v] > 0 /\ held' = [held EXCEPT ![v] = @ - 1] /\ UNCHANGED endv
StepBegin(h) == At(h, {"begin"}, 0) /\ Ret(h, BeginV) /\ UNCHANGED <<held, endv>>
StepEnd(h) == At(h, {"end"}, 0) /\ Ret(h, endv) /\ UNCHANGED <<held, endv>>
\* --- the specification on its own
CONSTANT MaxHeld
Sum == LET RECURSIVE S(_) S(v) == IF v < 0 THEN 0 ELSE held[v] + S(v - 1) IN S(MaxV)
Next == \E h \in Th :
  \/ \E v \in 1..MaxV : Sum < MaxHeld /\ Open(h, "hold", v, 0) /\ UNCHANGED <<held, endv>>
  \/ \E v \in Held : Open(h, "drop", v, 0) /\ UNCHANGED <<held, endv>>
  \/ \E op \in {"begin", "end"} : Open(h, op, 0, 0) /\ UNCHANGED <<held, endv>>
  \/ StepHold(h) \/ StepDrop(h, pr[h].a) \/ StepBegin(h) \/ StepEnd(h)
  \/ (pr[h].op # "none" /\ Close(h, pr[h].op, pr[h].a, pr[h].r) /\ UNCHANGED <<held, endv>>)
Spec == PInit /\ [][Next]_pgvars
\* nothing still held is ever before begin, and begin is never past end
Safe == /\ \A v \in Held : BeginV <= v
        /\ BeginV <= endv
EndSticky == [][endv' >= endv]_pgvars
\* begin only goes back when somebody takes hold of an earlier position
BeginBack == [][BeginV' < BeginV => \E v \in 0..MaxV : held'[v] > held[v] /\ v < BeginV]_pgvars
=============================================================================
