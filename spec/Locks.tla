------------------------------- MODULE Locks -------------------------------
(* The two lock services.  The kind lock: any number of holders of one     *)
(* kind, never two kinds.  The name lock: one holder per name, and at most *)
(* cap names.                                                              *)
EXTENDS Procs
VARIABLES cnt, own, cap
lvars == <<cnt, own, cap, pr>>
LInit(c) == cnt = << >> /\ own = {} /\ cap = c /\ ProcInit
C(t) == IF t \in DOMAIN cnt THEN cnt[t] ELSE 0
KLock(h) == /\ At(h, {"klock"}, 0) /\ \A t \in DOMAIN cnt : cnt[t] > 0 => t = pr[h].a
            /\ cnt' = Put(cnt, pr[h].a, C(pr[h].a) + 1) /\ Ret(h, 0) /\ UNCHANGED <<own, cap>>
KUnlock(h) == /\ At(h, {"kunlock"}, 0) /\ C(pr[h].a) > 0
              /\ cnt' = Put(cnt, pr[h].a, C(pr[h].a) - 1) /\ Ret(h, 0) /\ UNCHANGED <<own, cap>>
Avail(k) == k \notin own /\ Cardinality(own) < cap
NLock(h) == At(h, {"lock"}, 0) /\ Avail(pr[h].a) /\ own' = own \cup {pr[h].a} /\ Ret(h, 0) /\ UNCHANGED <<cnt, cap>>
NTry(h) == /\ At(h, {"try"}, 0) /\ UNCHANGED <<cnt, cap>>
           /\ IF Avail(pr[h].a) THEN own' = own \cup {pr[h].a} /\ Ret(h, 1) ELSE UNCHANGED own /\ Ret(h, 0)
NUnlock(h) == At(h, {"unlock"}, 0) /\ pr[h].a \in own /\ own' = own \ {pr[h].a} /\ Ret(h, 0) /\ UNCHANGED <<cnt, cap>>
NSize(h) == At(h, {"size"}, 0) /\ Ret(h, Cardinality(own)) /\ UNCHANGED <<cnt, own, cap>>
Step(h) == KLock(h) \/ KUnlock(h) \/ NLock(h) \/ NTry(h) \/ NUnlock(h) \/ NSize(h)
CONSTANTS NK, Cap
VARIABLE mine          \* what each thread holds: sequence of <<service, name>>
MInit == LInit(Cap) /\ mine = [h \in Th |-> << >>]
Holds(h, s, k) == \E i \in DOMAIN mine[h] : mine[h][i] = <<s, k>>
MNext == \E h \in Th :
  \/ (mine[h] = << >> /\ \E k \in 1..NK : \E op \in {"klock", "lock"} : Open(h, op, k, 0) /\ mine' = [mine EXCEPT ![h] = Append(@, <<op, k>>)] /\ UNCHANGED <<cnt, own, cap>>)
  \/ (mine[h] # << >> /\ LET m == mine[h][1] IN Open(h, IF m[1] = "klock" THEN "kunlock" ELSE "unlock", m[2], 0) /\ mine' = [mine EXCEPT ![h] = Tail(@)] /\ UNCHANGED <<cnt, own, cap>>)
  \/ Step(h) /\ UNCHANGED mine
  \/ (pr[h].op # "none" /\ Close(h, pr[h].op, pr[h].a, pr[h].r) /\ UNCHANGED <<cnt, own, cap, mine>>)
Spec == MInit /\ [][MNext]_<<cnt, own, cap, pr, mine>> /\ WF_<<cnt, own, cap, pr, mine>>(MNext)
OneKind == \A s, t \in DOMAIN cnt : (cnt[s] > 0 /\ cnt[t] > 0) => s = t
CapOk == Cardinality(own) <= cap
=============================================================================
