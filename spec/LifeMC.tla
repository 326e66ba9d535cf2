------------------------------- MODULE LifeMC -------------------------------
(* Workers, a progress record that is written now and then, and signals at  *)
(* any time: the end always comes, and nothing that was done before it was  *)
(* asked for is forgotten.                                                  *)
EXTENDS Life
CONSTANTS Units, Workers, MaxSig,
          Mistake     \* "" or "idle" (the end waits for an empty queue), "nosave", "late" (the pool is stopped after saving)
VARIABLES queued, busy, done, saved, asked, sent, pc
mvars == <<lvars, queued, busy, done, saved, asked, sent, pc>>
MCInit == LInit /\ queued = Units /\ busy = 0 /\ done = 0 /\ saved = 0 /\ asked = 0 /\ sent = 0 /\ pc = "run"
Up == phase = "off" /\ phase' = "up" /\ UNCHANGED <<pend, paused, queued, busy, done, saved, asked, sent, pc>>
Sig == phase # "down" /\ sent < MaxSig /\ sent' = sent + 1 /\ (\E s \in {Pause, Resume} \cup Terms : Send(s)) /\ UNCHANGED <<queued, busy, done, saved, asked, pc>>
Lowest(s) == \A q \in pend : s <= q
TakeOne == \E s \in pend : /\ Lowest(s) /\ Take(s)
              /\ asked' = (IF s \in Terms THEN done ELSE asked)
              /\ UNCHANGED <<queued, busy, done, saved, sent, pc>>
\* the pool's own idea of being paused
Stopped == paused /\ ~(Mistake = "late" /\ phase = "stopping" /\ pc = "run")
Begin == phase \in {"up", "stopping"} /\ ~Stopped /\ queued > 0 /\ busy < Workers /\ queued' = queued - 1 /\ busy' = busy + 1
         /\ UNCHANGED <<lvars, done, saved, asked, sent, pc>>
End == phase # "down" /\ busy > 0 /\ busy' = busy - 1 /\ done' = done + 1 /\ UNCHANGED <<lvars, queued, saved, asked, sent, pc>>
Save == phase = "up" /\ saved # done /\ saved' = done /\ UNCHANGED <<lvars, queued, busy, done, asked, sent, pc>>
LastSave == /\ phase = "stopping" /\ pc = "run" /\ (Mistake = "idle" => queued = 0 /\ busy = 0)
            /\ saved' = (IF Mistake = "nosave" THEN saved ELSE done) /\ pc' = "saved" /\ UNCHANGED <<lvars, queued, busy, done, asked, sent>>
Leave == phase = "stopping" /\ pc = "saved" /\ Exit /\ UNCHANGED <<queued, busy, done, saved, asked, sent, pc>>
MCNext == Up \/ Sig \/ TakeOne \/ Begin \/ End \/ Save \/ LastSave \/ Leave
MCSpec == MCInit /\ [][MCNext]_mvars /\ WF_mvars(Up) /\ WF_mvars(TakeOne) /\ WF_mvars(Begin) /\ WF_mvars(End) /\ WF_mvars(LastSave) /\ WF_mvars(Leave)
Kept == phase = "down" => saved >= asked
NoStart == busy' > busy => MayBegin
NoneWhilePaused == [][NoStart]_mvars
Ends == (pend \cap Terms # {}) ~> (phase = "down")
\* left alone and not paused, all the work gets done
Works == <>[](phase = "up" /\ ~paused) => <>(queued = 0 /\ busy = 0)
=============================================================================
