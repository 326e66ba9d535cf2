------------------------------- MODULE Cache -------------------------------
(* The LRU cache of function results.  lst runs from the cold end to the   *)
(* hot end.  A key is computed by one caller at a time (klock).            *)
EXTENDS Procs
VARIABLES lst, maxn, klock
cvars == <<lst, maxn, klock, pr>>
CInit(m) == lst = << >> /\ maxn = m /\ klock = {} /\ ProcInit
Keys == {lst[i][1] : i \in DOMAIN lst}
Where(k) == CHOOSE i \in DOMAIN lst : lst[i][1] = k
Val(k) == lst[Where(k)][2]
Without(k) == SelectSeq(lst, LAMBDA e : e[1] # k)
Hot(k) == Append(Without(k), lst[Where(k)])
Shrink(s, n) == IF Len(s) > n THEN SubSeq(s, Len(s) - n + 1, Len(s)) ELSE s
Room(s) == Shrink(s, IF maxn = 0 THEN 0 ELSE maxn - 1)
K(h) == pr[h].a
CALC == {"get", "refresh", "insert"}
Result(h, v) == IF pr[h].op = "insert" THEN 0 ELSE v

Forget(h) == /\ At(h, {"refresh"}, 0) /\ To(h, 1) /\ lst' = Without(K(h)) /\ UNCHANGED <<maxn, klock>>
Ready(h) == At(h, {"get", "insert"}, 0) \/ At(h, {"refresh"}, 1)
Hit(h) == /\ Ready(h) /\ K(h) \in Keys /\ Ret(h, Result(h, Val(K(h)))) /\ lst' = Hot(K(h)) /\ UNCHANGED <<maxn, klock>>
Miss(h) == /\ Ready(h) /\ K(h) \notin Keys /\ To(h, 2) /\ UNCHANGED <<lst, maxn, klock>>
Lock(h) == /\ At(h, CALC, 2) /\ K(h) \notin klock /\ klock' = klock \cup {K(h)} /\ To(h, 3) /\ UNCHANGED <<lst, maxn>>
\* somebody else's result arrived meanwhile; whether that counts as a use is left open
Late(h) == /\ At(h, CALC, 3) /\ K(h) \in Keys /\ klock' = klock \ {K(h)}
           /\ Ret(h, Result(h, Val(K(h)))) /\ lst' \in {lst, Hot(K(h))} /\ UNCHANGED maxn
Go(h) == /\ At(h, CALC, 3) /\ K(h) \notin Keys /\ UNCHANGED <<lst, maxn, klock>>
         /\ IF pr[h].op = "insert" THEN ToX(h, 6, pr[h].b) ELSE To(h, 4)
ComputeStart(h) == At(h, {"get", "refresh"}, 4) /\ To(h, 5) /\ UNCHANGED <<lst, maxn, klock>>
ComputeEnd(h, v) == /\ At(h, {"get", "refresh"}, 5) /\ v # 0 /\ ToX(h, 6, v) /\ UNCHANGED <<lst, maxn, klock>>
ComputeThrow(h) == /\ At(h, {"get", "refresh"}, 5) /\ Ret(h, 0) /\ klock' = klock \ {K(h)} /\ UNCHANGED <<lst, maxn>>
Store(h) == /\ At(h, CALC, 6) /\ klock' = klock \ {K(h)} /\ UNCHANGED maxn
            /\ lst' = Append(Room(lst), <<K(h), pr[h].x>>)
            /\ Ret(h, Result(h, pr[h].x))
Expire(h) == At(h, {"expire"}, 0) /\ Ret(h, 0) /\ lst' = Without(K(h)) /\ UNCHANGED <<maxn, klock>>
ClearAll(h) == At(h, {"clear"}, 0) /\ Ret(h, 0) /\ lst' = << >> /\ UNCHANGED <<maxn, klock>>
Size(h) == At(h, {"size"}, 0) /\ Ret(h, Len(lst)) /\ UNCHANGED <<lst, maxn, klock>>
\* lowering the limit makes room at once; the entry about to follow may or may not be counted
Limit(h) == /\ At(h, {"max"}, 0) /\ Ret(h, 0) /\ maxn' = K(h) /\ UNCHANGED klock
            /\ lst' \in {Shrink(lst, K(h)), Shrink(lst, IF K(h) = 0 THEN 0 ELSE K(h) - 1)}
Step(h) == Forget(h) \/ Hit(h) \/ Miss(h) \/ Lock(h) \/ Late(h) \/ Go(h) \/ Store(h) \/ Expire(h) \/ ClearAll(h) \/ Size(h) \/ Limit(h)

\* --- the specification on its own
CONSTANTS NKeys, MaxVal, InitMax
VARIABLE nv
mvars == <<lst, maxn, klock, pr, nv>>
MInit == CInit(InitMax) /\ nv = 0
MNext == \E h \in Th :
  \/ \E op \in {"get", "refresh", "expire"}, k \in 1..NKeys : Open(h, op, k, 0) /\ UNCHANGED <<lst, maxn, klock, nv>>
  \/ \E op \in {"clear"} : Open(h, op, 0, 0) /\ UNCHANGED <<lst, maxn, klock, nv>>
  \/ \E m \in 0..2 : Open(h, "max", m, 0) /\ UNCHANGED <<lst, maxn, klock, nv>>
  \/ Step(h) /\ UNCHANGED nv
  \/ ComputeStart(h) /\ UNCHANGED nv
  \/ nv < MaxVal /\ nv' = nv + 1 /\ ComputeEnd(h, nv + 1)
  \/ ComputeThrow(h) /\ UNCHANGED nv
  \/ (pr[h].op # "none" /\ Close(h, pr[h].op, pr[h].a, pr[h].r) /\ UNCHANGED <<lst, maxn, klock, nv>>)
Spec == MInit /\ [][MNext]_mvars
OneEntryPerKey == \A i, j \in DOMAIN lst : lst[i][1] = lst[j][1] => i = j
Bounded == Len(lst) <= IF maxn = 0 THEN 1 ELSE maxn
OneCompute == \A g, h \in Th : (g # h /\ pr[g].op \in {"get", "refresh"} /\ pr[h].op \in {"get", "refresh"} /\ pr[g].st = 5 /\ pr[h].st = 5) => pr[g].a # pr[h].a
=============================================================================
