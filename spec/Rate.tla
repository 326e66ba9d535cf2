-------------------------------- MODULE Rate --------------------------------
(* The counter others wait on: a waiter returns when the count has reached *)
(* its target (or was seen to go back), and then it does return.           *)
EXTENDS Procs
VARIABLE count
rvars == <<count, pr>>
RInit == count = 0 /\ ProcInit
Max(a, b) == IF a > b THEN a ELSE b
\* changing the count tells every waiter whether it went back
Change(h, v) == /\ count' = v
                /\ pr' = [g \in Th |-> IF g = h THEN [pr[g] EXCEPT !.st = DONE]
                                       ELSE IF pr[g].op \in {"until", "for"} /\ pr[g].st = 1 /\ v < count THEN [pr[g] EXCEPT !.b = 1] ELSE pr[g]]
Inc(h) == At(h, {"inc"}, 0) /\ Change(h, count + pr[h].a)
Mono(h) == At(h, {"mono"}, 0) /\ Change(h, Max(count, pr[h].a))
Set(h) == At(h, {"set"}, 0) /\ Change(h, pr[h].a)
Until(h) == At(h, {"until"}, 0) /\ ToX(h, 1, pr[h].a) /\ UNCHANGED count
For(h) == At(h, {"for"}, 0) /\ ToX(h, 1, count + pr[h].a) /\ UNCHANGED count
Woken(h) == At(h, {"until", "for"}, 1) /\ (count >= pr[h].x \/ pr[h].b = 1) /\ Ret(h, 0) /\ UNCHANGED count
Count(h) == At(h, {"count"}, 0) /\ Ret(h, count) /\ UNCHANGED count
Secs(h) == At(h, {"secs"}, 0) /\ Ret(h, 1) /\ UNCHANGED count
Step(h) == Inc(h) \/ Mono(h) \/ Set(h) \/ Until(h) \/ For(h) \/ Woken(h) \/ Count(h) \/ Secs(h)
CONSTANT MaxC
Small == count <= MaxC + 2
Next == \E h \in Th :
  \/ \E op \in {"mono", "set", "until"}, v \in 0..MaxC : Open(h, op, v, 0) /\ UNCHANGED count
  \/ \E op \in {"count"} : Open(h, op, 0, 0) /\ UNCHANGED count
  \/ (count < MaxC /\ Open(h, "inc", 1, 0) /\ UNCHANGED count)
  \/ Step(h)
  \/ (pr[h].op # "none" /\ Close(h, pr[h].op, pr[h].a, pr[h].r) /\ UNCHANGED count)
Spec == RInit /\ [][Next]_rvars /\ \A h \in Th : WF_rvars(Woken(h)) /\ WF_rvars(Until(h))
\* a waiter for something that stays reached is let go
LetGo == \A h \in Th : []((pr[h].op = "until") => <>(pr[h].op # "until" \/ pr[h].st = DONE \/ count < pr[h].a))
=============================================================================
