------------------------------- MODULE Procs -------------------------------
(* Threads calling operations of a shared object: an open call per thread, *)
(* which passes through stages until DONE, when it may return.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT MaxTh
VARIABLE pr
Th == 1..MaxTh
DONE == 9
Idle == [op |-> "none", a |-> 0, b |-> 0, st |-> 0, r |-> 0, x |-> 0]
ProcInit == pr = [h \in Th |-> Idle]
Open(h, op, a, b) == pr[h].op = "none" /\ pr' = [pr EXCEPT ![h] = [Idle EXCEPT !.op = op, !.a = a, !.b = b]]
At(h, ops, st) == pr[h].op \in ops /\ pr[h].st = st
To(h, st) == pr' = [pr EXCEPT ![h].st = st]
ToX(h, st, x) == pr' = [pr EXCEPT ![h].st = st, ![h].x = x]
Ret(h, r) == pr' = [pr EXCEPT ![h].st = DONE, ![h].r = r]
Close(h, op, a, r) == /\ pr[h].op = op /\ pr[h].a = a /\ pr[h].st = DONE /\ pr[h].r = r
                      /\ pr' = [pr EXCEPT ![h] = Idle]
AllIdle == \A h \in Th : pr[h].op = "none"
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
=============================================================================
