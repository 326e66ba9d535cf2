------------------------------ MODULE FdTable ------------------------------
(* File handles: a number handed out by the kernel is closed exactly once, *)
(* after the last handle made for it is gone, and never before.            *)
EXTENDS Procs
VARIABLES isopen, refs, due       \* due: numbers whose last handle is gone and that must still be closed
fvars == <<isopen, refs, due, pr>>
FInit == isopen = {} /\ refs = << >> /\ due = {} /\ ProcInit
R(n) == IF n \in DOMAIN refs THEN refs[n] ELSE 0
KOpen(n) == n \notin isopen /\ isopen' = isopen \cup {n} /\ UNCHANGED <<refs, due, pr>>
Copy(n) == R(n) > 0 /\ refs' = Put(refs, n, R(n) + 1) /\ UNCHANGED <<isopen, due, pr>>
Wrap(h) == /\ At(h, {"wrap"}, 0) /\ pr[h].a \in isopen \ due /\ refs' = Put(refs, pr[h].a, R(pr[h].a) + 1)
           /\ Ret(h, pr[h].a) /\ UNCHANGED <<isopen, due>>
Drop(h) == /\ At(h, {"drop"}, 0) /\ R(pr[h].a) > 0 /\ refs' = Put(refs, pr[h].a, R(pr[h].a) - 1)
           /\ due' = IF R(pr[h].a) = 1 THEN due \cup {pr[h].a} ELSE due
           /\ Ret(h, 0) /\ UNCHANGED isopen
KClose(n) == n \in due /\ isopen' = isopen \ {n} /\ due' = due \ {n} /\ UNCHANGED <<refs, pr>>
CONSTANT NFd, MaxRef
Next == \/ \E n \in 1..NFd : KOpen(n) \/ KClose(n) \/ (R(n) < MaxRef /\ Copy(n))
        \/ \E h \in Th : \/ \E n \in isopen : (R(n) < MaxRef /\ n \notin due /\ ~(\E g \in Th : pr[g].op # "none" /\ pr[g].a = n) /\ Open(h, "wrap", n, 0) /\ UNCHANGED <<isopen, refs, due>>)
                         \/ \E n \in isopen : (R(n) > Cardinality({g \in Th : pr[g].op = "drop" /\ pr[g].a = n /\ pr[g].st = 0}) /\ Open(h, "drop", n, 0) /\ UNCHANGED <<isopen, refs, due>>)
                         \/ Wrap(h) \/ Drop(h)
                         \/ (pr[h].op # "none" /\ Close(h, pr[h].op, pr[h].a, pr[h].r) /\ UNCHANGED <<isopen, refs, due>>)
Spec == FInit /\ [][Next]_fvars
HandlesOpen == \A n \in DOMAIN refs : refs[n] > 0 => n \in isopen \ due
=============================================================================
