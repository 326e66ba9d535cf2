------------------------------ MODULE TaskPool ------------------------------
(* The worker pool: tasks, queues, dependents, exclusions, barriers, pause, *)
(* thread count and cancel.  Abstract state and the atomic steps that the   *)
(* public API and the workers may take.  TaskPoolMC explores it; the trace  *)
(* module TaskPoolTrace asks whether a recorded execution of the real pool  *)
(* is a behaviour of it.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NT,   \* number of tasks; task ids are 1..NT in creation order
          NE,   \* number of exclusions
          NB    \* number of barriers

VARIABLES
  loc,       \* where the pending execution of a task is, "none" if none is pending
  st,        \* execution state of the task's body
  idf,       \* task was last submitted as idle work
  wt,        \* the target a "wait" task is queued behind
  srt,       \* dependents of the task are to be released in age order
  mainq, idleq,
  prec,      \* pairs <<a,b>> of released tasks: a must be picked before b
  paused, cancelled, maxthr,
  dropped,   \* the program holds no more handles on the task
  dead,      \* the task object is gone
  holder,    \* exclusion -> task holding it, 0 if free
  brefs, btasks   \* barrier -> number of references, set of waiting tasks

pool == <<loc, st, idf, wt, srt, mainq, idleq, prec, paused, cancelled, maxthr,
          dropped, dead, holder, brefs, btasks>>

Tasks == 1..NT

InitPool(thr, nb) ==
  /\ loc = [k \in Tasks |-> "none"]
  /\ st = [k \in Tasks |-> "idle"]
  /\ idf = [k \in Tasks |-> FALSE]
  /\ wt = [k \in Tasks |-> 0]
  /\ srt = [k \in Tasks |-> FALSE]
  /\ mainq = <<>> /\ idleq = <<>> /\ prec = {}
  /\ paused = FALSE /\ cancelled = FALSE /\ maxthr = thr
  /\ dropped = [k \in Tasks |-> FALSE]
  /\ dead = [k \in Tasks |-> FALSE]
  /\ holder = [e \in 1..NE |-> 0]
  /\ brefs = [b \in 1..NB |-> nb]
  /\ btasks = [b \in 1..NB |-> {}]

-----------------------------------------------------------------------------
(* API steps.  Each is the linearization point of one call.                 *)

\* closure of a set of tasks under "queued behind"
RECURSIVE Behind(_)
Behind(S) == LET n == S \union {m \in Tasks : loc[m] = "wait" /\ wt[m] \in S}
             IN IF n = S THEN S ELSE Behind(n)
\* discard a task that can no longer be queued, with everything queued behind it
Discard(k) ==
  LET v == Behind({k}) IN
  /\ loc' = [m \in Tasks |-> IF m \in v THEN "void" ELSE loc[m]]
  /\ wt' = [m \in Tasks |-> IF m \in v THEN 0 ELSE wt[m]]

Submit(k) ==                                                       \* run
  /\ ~dead[k]
  /\ idf' = [idf EXCEPT ![k] = FALSE]
  /\ IF loc[k] # "none" THEN UNCHANGED <<loc, wt, mainq>>          \* coalesce
     ELSE IF st[k] # "idle" THEN loc' = [loc EXCEPT ![k] = "again"] /\ UNCHANGED <<wt, mainq>>
     ELSE IF cancelled THEN Discard(k) /\ UNCHANGED mainq
     ELSE loc' = [loc EXCEPT ![k] = "main"] /\ mainq' = Append(mainq, k) /\ UNCHANGED wt
  /\ UNCHANGED <<st, srt, idleq, prec, paused, cancelled, maxthr, dropped, dead, holder, brefs, btasks>>

SubmitIdle(k) ==                                                   \* idle
  /\ ~dead[k]
  /\ idf' = [idf EXCEPT ![k] = TRUE]
  /\ IF loc[k] # "none" THEN UNCHANGED <<loc, wt, idleq>>
     ELSE IF st[k] # "idle" THEN loc' = [loc EXCEPT ![k] = "again"] /\ UNCHANGED <<wt, idleq>>
     ELSE IF cancelled THEN Discard(k) /\ UNCHANGED idleq
     ELSE loc' = [loc EXCEPT ![k] = "idle"] /\ idleq' = Append(idleq, k) /\ UNCHANGED wt
  /\ UNCHANGED <<st, srt, mainq, prec, paused, cancelled, maxthr, dropped, dead, holder, brefs, btasks>>

AppendTo(t, k) ==                                                  \* append
  /\ ~dead[k] /\ ~dead[t]
  /\ idf' = [idf EXCEPT ![k] = FALSE]
  /\ IF loc[k] # "none" THEN UNCHANGED <<loc, wt>>
     ELSE loc' = [loc EXCEPT ![k] = "wait"] /\ wt' = [wt EXCEPT ![k] = t]
  /\ UNCHANGED <<st, srt, mainq, idleq, prec, paused, cancelled, maxthr, dropped, dead, holder, brefs, btasks>>

InsertAt(t, k) ==                                                  \* insert
  /\ ~dead[k] /\ ~dead[t] /\ t # k
  /\ idf' = [idf EXCEPT ![k] = FALSE]
  /\ IF loc[k] # "none" THEN UNCHANGED <<loc, wt, srt>>
     ELSE /\ loc' = [loc EXCEPT ![k] = "wait"]
          /\ wt' = [m \in Tasks |-> IF m = k \/ (loc[m] = "wait" /\ wt[m] = k) THEN t ELSE wt[m]]
          /\ srt' = [srt EXCEPT ![t] = TRUE]
  /\ UNCHANGED <<st, mainq, idleq, prec, paused, cancelled, maxthr, dropped, dead, holder, brefs, btasks>>

SetPaused(p) ==
  /\ paused' = p
  /\ UNCHANGED <<loc, st, idf, wt, srt, mainq, idleq, prec, cancelled, maxthr, dropped, dead, holder, brefs, btasks>>

SetThreads(n) ==
  /\ maxthr' = n
  /\ UNCHANGED <<loc, st, idf, wt, srt, mainq, idleq, prec, paused, cancelled, dropped, dead, holder, brefs, btasks>>

Cancel ==
  /\ paused' = TRUE /\ cancelled' = TRUE
  /\ LET v == Behind({k \in Tasks : loc[k] \in {"main", "idle", "free"}})
     IN /\ loc' = [k \in Tasks |-> IF k \in v THEN "void" ELSE loc[k]]
        /\ wt' = [k \in Tasks |-> IF k \in v THEN 0 ELSE wt[k]]
  /\ mainq' = <<>> /\ idleq' = <<>> /\ prec' = {}
  /\ UNCHANGED <<st, idf, srt, maxthr, dropped, dead, holder, brefs, btasks>>

Drop(k) ==
  /\ dropped' = [dropped EXCEPT ![k] = TRUE]
  /\ UNCHANGED <<loc, st, idf, wt, srt, mainq, idleq, prec, paused, cancelled, maxthr, dead, holder, brefs, btasks>>

Acquire(e, k) ==
  /\ holder[e] = 0
  /\ holder' = [holder EXCEPT ![e] = k]
  /\ UNCHANGED <<loc, st, idf, wt, srt, mainq, idleq, prec, paused, cancelled, maxthr, dropped, dead, brefs, btasks>>

Release(e) ==
  /\ holder' = [holder EXCEPT ![e] = 0]
  /\ UNCHANGED <<loc, st, idf, wt, srt, mainq, idleq, prec, paused, cancelled, maxthr, dropped, dead, brefs, btasks>>

BInsert(b, k) ==
  /\ brefs[b] > 0
  /\ btasks' = [btasks EXCEPT ![b] = @ \union {k}]
  /\ UNCHANGED <<loc, st, idf, wt, srt, mainq, idleq, prec, paused, cancelled, maxthr, dropped, dead, holder, brefs>>

BCopy(b) ==
  /\ brefs[b] > 0
  /\ brefs' = [brefs EXCEPT ![b] = @ + 1]
  /\ UNCHANGED <<loc, st, idf, wt, srt, mainq, idleq, prec, paused, cancelled, maxthr, dropped, dead, holder, btasks>>

\* the caller then submits BTodo(b), one by one
BDrop(b) ==
  /\ brefs[b] > 0
  /\ brefs' = [brefs EXCEPT ![b] = @ - 1]
  /\ btasks' = IF brefs[b] = 1 THEN [btasks EXCEPT ![b] = {}] ELSE btasks
  /\ UNCHANGED <<loc, st, idf, wt, srt, mainq, idleq, prec, paused, cancelled, maxthr, dropped, dead, holder>>
BTodo(b) == IF brefs[b] = 1 THEN btasks[b] ELSE {}

-----------------------------------------------------------------------------
(* Steps of workers.                                                        *)

Hand == {k \in Tasks : loc[k] = "hand"}
Executing == {k \in Tasks : st[k] # "idle"}
Busy == Cardinality(Hand) + Cardinality(Executing)

Ready(k) ==
  \/ loc[k] = "main" /\ Head(mainq) = k                       \* first come, first served
  \/ loc[k] = "idle" /\ mainq = <<>> /\ Head(idleq) = k       \* only when nothing else waits
  \/ loc[k] = "free" /\ ~\E a \in Tasks : <<a, k>> \in prec   \* released dependents

Pick(k) ==
  /\ ~paused /\ Busy < maxthr
  /\ Ready(k)
  /\ loc' = [loc EXCEPT ![k] = "hand"]
  /\ mainq' = IF loc[k] = "main" THEN Tail(mainq) ELSE mainq
  /\ idleq' = IF loc[k] = "idle" THEN Tail(idleq) ELSE idleq
  /\ prec' = {p \in prec : p[1] # k}
  /\ UNCHANGED <<st, idf, wt, srt, paused, cancelled, maxthr, dropped, dead, holder, brefs, btasks>>

Start(k) ==
  /\ loc[k] = "hand"
  /\ IF st[k] # "idle" THEN loc' = [loc EXCEPT ![k] = "again"] /\ UNCHANGED st
     ELSE loc' = [loc EXCEPT ![k] = "none"] /\ st' = [st EXCEPT ![k] = "starting"]
  /\ UNCHANGED <<idf, wt, srt, mainq, idleq, prec, paused, cancelled, maxthr, dropped, dead, holder, brefs, btasks>>

BodyBegin(k) ==
  /\ st[k] = "starting"
  /\ st' = [st EXCEPT ![k] = "running"]
  /\ UNCHANGED <<loc, idf, wt, srt, mainq, idleq, prec, paused, cancelled, maxthr, dropped, dead, holder, brefs, btasks>>

BodyEnd(k) ==
  /\ st[k] = "running"
  /\ st' = [st EXCEPT ![k] = "ending"]
  /\ UNCHANGED <<loc, idf, wt, srt, mainq, idleq, prec, paused, cancelled, maxthr, dropped, dead, holder, brefs, btasks>>

\* release the tasks in B (dependents of k) for execution, or discard them after a cancel
ReleaseBatch(k, B, base) ==
  IF cancelled
  THEN LET v == Behind(B) IN
       /\ loc' = [m \in Tasks |-> IF m \in v THEN "void" ELSE base[m]]
       /\ wt' = [m \in Tasks |-> IF m \in v THEN 0 ELSE wt[m]]
       /\ UNCHANGED prec
  ELSE /\ loc' = [m \in Tasks |-> IF m \in B THEN "free" ELSE base[m]]
       /\ wt' = [m \in Tasks |-> IF m \in B THEN 0 ELSE wt[m]]
       /\ prec' = IF srt[k] THEN prec \union {p \in B \X B : p[1] < p[2]} ELSE prec

Finish(k) ==
  /\ st[k] = "ending"
  /\ st' = [st EXCEPT ![k] = "idle"]
  /\ LET again == loc[k] = "again"
         toidle == again /\ idf[k]
         W == {m \in Tasks : loc[m] = "wait" /\ wt[m] = k}
         B == IF again /\ ~toidle THEN W \union {k} ELSE W
         base == IF toidle THEN [loc EXCEPT ![k] = IF cancelled THEN "void" ELSE "idle"] ELSE loc
     IN /\ ReleaseBatch(k, B, base)
        /\ idleq' = IF toidle /\ ~cancelled THEN Append(idleq, k) ELSE idleq
  /\ srt' = [srt EXCEPT ![k] = FALSE]
  /\ UNCHANGED <<idf, mainq, paused, cancelled, maxthr, dropped, dead, holder, brefs, btasks>>

Held(k) == \/ \E e \in 1..NE : holder[e] = k
           \/ \E b \in 1..NB : k \in btasks[b]

\* the last reference on a task that nobody will run goes away
Die(k) ==
  /\ ~dead[k] /\ dropped[k] /\ ~Held(k)
  /\ loc[k] \in {"none", "void"} /\ st[k] = "idle"
  /\ dead' = [dead EXCEPT ![k] = TRUE]
  /\ ReleaseBatch(k, {m \in Tasks : loc[m] = "wait" /\ wt[m] = k}, loc)
  /\ UNCHANGED <<st, idf, srt, mainq, idleq, paused, cancelled, maxthr, dropped, holder, brefs, btasks>>

\* Nothing is left that a worker could do: what must hold when the pool has come to rest.
AtRest ==
  /\ \A k \in Tasks : st[k] \in {"idle", "running"} /\ loc[k] # "hand"
  \* released dependents may be reserved for the worker that released them, which may still be busy
  /\ (~paused /\ Cardinality(Executing) < maxthr) =>
       ~\E k \in Tasks : Ready(k) /\ (loc[k] = "free" => Executing = {})
  \* everything nobody refers to is gone (a busy worker may still hold discarded tasks)
  /\ \A k \in Tasks : (/\ dropped[k] /\ ~Held(k) /\ st[k] = "idle"
                       /\ (loc[k] = "none" \/ (loc[k] = "void" /\ Executing = {}))) => dead[k]

-----------------------------------------------------------------------------
(* What the pool promises (checked by TaskPoolMC on the specification).     *)

TypeOK ==
  /\ \A k \in Tasks : loc[k] \in {"none", "main", "idle", "free", "wait", "hand", "again", "void"}
  /\ \A k \in Tasks : st[k] \in {"idle", "starting", "running", "ending"}
  /\ \A k \in Tasks : (loc[k] = "wait") <=> (wt[k] # 0)
QueuesExact ==
  /\ {mainq[i] : i \in DOMAIN mainq} = {k \in Tasks : loc[k] = "main"} /\ Len(mainq) = Cardinality({k \in Tasks : loc[k] = "main"})
  /\ {idleq[i] : i \in DOMAIN idleq} = {k \in Tasks : loc[k] = "idle"} /\ Len(idleq) = Cardinality({k \in Tasks : loc[k] = "idle"})
WaitersHaveLiveTarget == \A k \in Tasks : loc[k] = "wait" => ~dead[wt[k]]
PrecExact == \A p \in prec : loc[p[1]] = "free"
AgainMeansExecuting == \A k \in Tasks : loc[k] = "again" => st[k] # "idle"
DeadIsDone == \A k \in Tasks : dead[k] => loc[k] \in {"none", "void"} /\ st[k] = "idle"
NothingQueuedAfterCancel == cancelled => mainq = <<>> /\ idleq = <<>> /\ ~\E k \in Tasks : loc[k] = "free"
=============================================================================
