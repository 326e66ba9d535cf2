--------------------------- MODULE TaskPoolTrace ---------------------------
(* Is each recorded execution of the real worker pool a behaviour of       *)
(* TaskPool?  Calls and returns, body begins and ends and destructions are *)
(* logged; linearization points, picks, starts and finishes are not, so    *)
(* they are free steps here.  A trace is accepted when some placement of   *)
(* the free steps consumes all of it.                                      *)
EXTENDS TaskPool, Json, IOUtils

TraceFile == IOEnv.TRACES
Traces == ndJsonDeserialize(TraceFile)
CONSTANT MaxTh
VARIABLES tr, pos, open, freed
tvars == <<pool, tr, pos, open, freed>>

None == [op |-> "none", k |-> 0, t |-> 0, stage |-> 0, todo |-> {}, r |-> 0]
Ev == Traces[tr].ev
E == Ev[pos]

Init ==
  /\ tr \in 1..Len(Traces)
  /\ pos = 2
  /\ open = [h \in 1..MaxTh |-> None]
  /\ freed = [k \in Tasks |-> FALSE]
  /\ InitPool(Traces[tr].ev[1].thr, 1)

Advance == pos' = pos + 1 /\ UNCHANGED tr
Same == UNCHANGED <<tr, pos, freed>>
SetOpen(h, o) == open' = [open EXCEPT ![h] = o]
Did(h, r) == SetOpen(h, [open[h] EXCEPT !.stage = 1, !.r = r])

\* --- visible events
EvCall == /\ E.e = "c" /\ Advance
          /\ open[E.th].op = "none"
          /\ SetOpen(E.th, [op |-> E.op, k |-> E.k, t |-> E.t, stage |-> 0, todo |-> {}, r |-> 0])
          /\ UNCHANGED freed
          /\ IF E.op = "drop" THEN Drop(E.k) ELSE UNCHANGED pool
EvRet == /\ E.e = "r" /\ Advance
         /\ open[E.th].op = E.op /\ open[E.th].k = E.k
         /\ open[E.th].stage = 1 /\ open[E.th].todo = {} /\ open[E.th].r = E.r
         /\ (E.op = "thr" => Busy <= E.k)
         /\ SetOpen(E.th, None)
         /\ UNCHANGED <<pool, freed>>
EvBeg == E.e = "beg" /\ Advance /\ BodyBegin(E.k) /\ UNCHANGED <<open, freed>>
EvEnd == E.e = "end" /\ Advance /\ BodyEnd(E.k) /\ UNCHANGED <<open, freed>>
EvFree == /\ E.e = "free" /\ Advance
          /\ dead[E.k] /\ ~freed[E.k]
          /\ freed' = [freed EXCEPT ![E.k] = TRUE]
          /\ UNCHANGED <<pool, open>>
EvGo == E.e = "go" /\ Advance /\ UNCHANGED <<pool, open, freed>>
EvFin == /\ E.e = "fin" /\ Advance
         /\ AtRest
         /\ \A k \in Tasks : dead[k] => freed[k]
         /\ UNCHANGED <<pool, open, freed>>

\* --- free steps: where the open calls take effect
Lin(h) ==
  LET o == open[h] IN
  /\ o.op # "none" /\ Same
  /\ \/ o.stage = 0 /\ o.op = "run" /\ Submit(o.k) /\ Did(h, 0)
     \/ o.stage = 0 /\ o.op = "idle" /\ SubmitIdle(o.k) /\ Did(h, 0)
     \/ o.stage = 0 /\ o.op = "app" /\ AppendTo(o.t, o.k) /\ Did(h, 0)
     \/ o.stage = 0 /\ o.op = "ins" /\ InsertAt(o.t, o.k) /\ Did(h, 0)
     \/ o.stage = 0 /\ o.op = "drop" /\ UNCHANGED pool /\ Did(h, 0)
     \/ o.stage = 0 /\ o.op = "pause" /\ SetPaused(TRUE) /\ Did(h, 0)
     \/ o.stage = 0 /\ o.op = "resume" /\ SetPaused(FALSE) /\ Did(h, 0)
     \/ o.stage = 0 /\ o.op = "thr" /\ SetThreads(o.k) /\ Did(h, 0)
     \/ o.stage = 0 /\ o.op = "cancel" /\ Cancel /\ Did(h, 0)
     \/ o.stage = 0 /\ o.op = "rel" /\ holder[o.t + 1] = o.k /\ Release(o.t + 1) /\ Did(h, 0)
     \/ o.stage = 0 /\ o.op = "try" /\ holder[o.t + 1] = 0 /\ Acquire(o.t + 1, o.k) /\ Did(h, 1)
     \* a holder that tries again gets nothing and does not wait for itself
     \/ o.stage = 0 /\ o.op = "try" /\ holder[o.t + 1] = o.k /\ UNCHANGED pool /\ Did(h, 0)
     \/ o.stage = 0 /\ o.op = "try" /\ holder[o.t + 1] \notin {0, o.k} /\ UNCHANGED pool
          /\ SetOpen(h, [o EXCEPT !.stage = 2, !.r = holder[o.t + 1]])
     \/ o.stage = 2 /\ o.op = "try" /\ InsertAt(o.r, o.k) /\ Did(h, 0)
     \/ o.stage = 0 /\ o.op = "bins" /\ BInsert(o.t + 1, o.k) /\ Did(h, 0)
     \/ o.stage = 0 /\ o.op = "bcopy" /\ BCopy(o.t + 1) /\ Did(h, 0)
     \/ o.stage = 0 /\ o.op = "bdrop" /\ BDrop(o.t + 1)
          /\ SetOpen(h, [o EXCEPT !.stage = 1, !.todo = BTodo(o.t + 1)])
     \/ o.stage = 1 /\ o.op = "bdrop" /\ o.todo # {}
          /\ \E k \in o.todo : Submit(k) /\ SetOpen(h, [o EXCEPT !.todo = @ \ {k}])

\* the task a failed lock attempt is about to be queued behind cannot go away meanwhile
Pinned(k) == \E h \in 1..MaxTh : open[h].op = "try" /\ open[h].stage = 2 /\ open[h].r = k

Free ==
  \/ \E h \in 1..MaxTh : Lin(h)
  \/ /\ Same /\ UNCHANGED open
     /\ \E k \in Tasks : Pick(k) \/ Start(k) \/ Finish(k) \/ (~Pinned(k) /\ Die(k))

Visible == EvCall \/ EvRet \/ EvBeg \/ EvEnd \/ EvFree \/ EvGo \/ EvFin
Done == /\ pos = Len(Ev) + 1
        /\ PrintT(<<"ACCEPT", Traces[tr].id>>)
        /\ pos' = pos + 1 /\ UNCHANGED <<pool, tr, open, freed>>
Next == \/ (pos <= Len(Ev) /\ (Visible \/ Free))
        \/ Done
Spec == Init /\ [][Next]_tvars
\* used on a single rejected trace, with one worker: how far some behaviour gets
HighWater == (pos > TLCGet(1)) => (TLCSet(1, pos) /\ PrintT(<<"POS", pos>>))
ASSUME TLCSet(1, 0)
=============================================================================
