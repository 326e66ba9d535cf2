----------------------------- MODULE TaskPoolMC -----------------------------
(* Exhaustive exploration of TaskPool with a bounded number of API calls.   *)
EXTENDS TaskPool
CONSTANTS MaxOps, WithControl
VARIABLES ops, owed, todo
   \* owed[k]: a submission has been made since k's last execution began (history variable)
vars == <<pool, ops, owed, todo>>
Live(k) == ~dropped[k] /\ ~dead[k]

Init == InitPool(2, 2) /\ ops = 0 /\ owed = [k \in Tasks |-> FALSE] /\ todo = {}

Op == ops < MaxOps /\ ops' = ops + 1
Owe(k) == owed' = [owed EXCEPT ![k] = TRUE]
Api ==
  \/ \E k \in Tasks : Live(k) /\ (Submit(k) \/ SubmitIdle(k)) /\ Owe(k) /\ UNCHANGED todo
  \/ \E t, k \in Tasks : Live(t) /\ Live(k) /\ t # k /\ ~(k \in Behind({t}) \/ t \in Behind({k}))
        /\ (AppendTo(t, k) \/ InsertAt(t, k)) /\ Owe(k) /\ UNCHANGED todo
  \/ \E k \in Tasks : Live(k) /\ Drop(k) /\ UNCHANGED <<owed, todo>>
  \/ \E e \in 1..NE, k \in Tasks : Live(k) /\ st[k] = "running" /\ UNCHANGED todo /\
        IF holder[e] = 0 THEN Acquire(e, k) /\ UNCHANGED owed
        ELSE holder[e] # k /\ InsertAt(holder[e], k) /\ Owe(k)
  \/ \E e \in 1..NE : holder[e] # 0 /\ Release(e) /\ UNCHANGED <<owed, todo>>
  \/ \E b \in 1..NB, k \in Tasks : Live(k) /\ BInsert(b, k) /\ UNCHANGED <<owed, todo>>
  \/ \E b \in 1..NB : todo = {} /\ BDrop(b) /\ todo' = BTodo(b) /\ UNCHANGED owed
  \/ WithControl /\ UNCHANGED <<owed, todo>> /\
       ((~cancelled /\ (SetPaused(~paused) \/ Cancel)) \/ (\E n \in 0..2 : n # maxthr /\ SetThreads(n)))
Todo == \E k \in todo : Submit(k) /\ todo' = todo \ {k} /\ Owe(k) /\ UNCHANGED ops
Work ==
  /\ UNCHANGED <<ops, todo>>
  /\ \E k \in Tasks :
       \/ Start(k) /\ owed' = IF st[k] = "idle" THEN [owed EXCEPT ![k] = FALSE] ELSE owed
       \/ (Pick(k) \/ BodyBegin(k) \/ BodyEnd(k) \/ Finish(k) \/ Die(k)) /\ UNCHANGED owed
Next == (Op /\ Api) \/ Todo \/ Work
Spec == Init /\ [][Next]_vars

Quiet == ~ENABLED (Work \/ Todo)
\* C01: a submission is never lost: it is either still somewhere where it will be picked up, or was cancelled
NoLostSubmission == \A k \in Tasks : owed[k] => loc[k] # "none"
\* C01/C02/C03: at rest the only owed tasks wait behind a target that itself is not due, or the pool is held
RestIsRest ==
  Quiet =>
    /\ AtRest
    /\ ((~paused /\ maxthr > 0 /\ Executing = {}) =>
         \A k \in Tasks : owed[k] => IF loc[k] = "wait" THEN ~dead[wt[k]] ELSE loc[k] = "void")
\* C03
ThreadBound == [][Busy' > Busy => Busy' <= maxthr /\ ~paused]_vars
\* C02: dependents are only picked after release
DependentsWait == [][\A k \in Tasks : loc[k] = "wait" /\ loc'[k] # "wait" =>
                        \/ st[wt[k]] = "ending" /\ st'[wt[k]] = "idle"
                        \/ dead'[wt[k]] \/ cancelled']_vars
\* C04
OneHolder == [][\A e \in 1..NE : holder[e] # 0 /\ holder'[e] # holder[e] => holder'[e] = 0]_vars
\* C05
BarrierHolds == [][\A b \in 1..NB : btasks'[b] # {} \/ btasks[b] = {} \/ brefs'[b] = 0]_vars
=============================================================================
