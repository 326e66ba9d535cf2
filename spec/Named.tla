------------------------------- MODULE Named -------------------------------
(* Objects shared by name: while anybody holds the object of a name, every *)
(* lookup of the name gives that object; it is made by one caller at a     *)
(* time, and destroyed once, after its last holder let go.                 *)
EXTENDS Procs
VARIABLES cur, refs, alive, klock      \* cur: key -> object; refs: object -> holders
nvars == <<cur, refs, alive, klock, pr>>
NInit == cur = << >> /\ refs = << >> /\ alive = {} /\ klock = {} /\ ProcInit
R(o) == IF o \in DOMAIN refs THEN refs[o] ELSE 0
Cur(k) == IF k \in DOMAIN cur THEN cur[k] ELSE 0
Live(k) == Cur(k) # 0 /\ R(Cur(k)) > 0
K(h) == pr[h].a
CALC == {"get", "insert"}
Share(h) == /\ At(h, CALC, 0) /\ Live(K(h)) /\ refs' = Put(refs, Cur(K(h)), R(Cur(K(h))) + 1)
            /\ Ret(h, Cur(K(h))) /\ UNCHANGED <<cur, alive, klock>>
Miss(h) == At(h, CALC, 0) /\ ~Live(K(h)) /\ To(h, 2) /\ UNCHANGED <<cur, refs, alive, klock>>
Lock(h) == At(h, CALC, 2) /\ K(h) \notin klock /\ klock' = klock \cup {K(h)} /\ To(h, 3) /\ UNCHANGED <<cur, refs, alive>>
Late(h) == /\ At(h, CALC, 3) /\ Live(K(h)) /\ refs' = Put(refs, Cur(K(h)), R(Cur(K(h))) + 1)
           /\ klock' = klock \ {K(h)} /\ Ret(h, Cur(K(h))) /\ UNCHANGED <<cur, alive>>
Go(h) == /\ At(h, CALC, 3) /\ ~Live(K(h)) /\ UNCHANGED <<cur, refs, alive, klock>>
         /\ IF pr[h].op = "insert" THEN ToX(h, 6, pr[h].b) ELSE To(h, 4)
ComputeStart(h) == At(h, {"get"}, 4) /\ To(h, 5) /\ UNCHANGED <<cur, refs, alive, klock>>
ComputeEnd(h, o) == At(h, {"get"}, 5) /\ o \in alive /\ R(o) = 0 /\ ToX(h, 6, o) /\ UNCHANGED <<cur, refs, alive, klock>>
ComputeThrow(h) == At(h, {"get"}, 5) /\ Ret(h, 0) /\ klock' = klock \ {K(h)} /\ UNCHANGED <<cur, refs, alive>>
Store(h) == /\ At(h, CALC, 6) /\ cur' = Put(cur, K(h), pr[h].x) /\ refs' = Put(refs, pr[h].x, 1)
            /\ klock' = klock \ {K(h)} /\ Ret(h, pr[h].x) /\ UNCHANGED alive
Drop(h) == /\ At(h, {"drop"}, 0) /\ R(K(h)) > 0 /\ refs' = Put(refs, K(h), R(K(h)) - 1) /\ Ret(h, 0)
           /\ UNCHANGED <<cur, alive, klock>>
Step(h) == Share(h) \/ Miss(h) \/ Lock(h) \/ Late(h) \/ Go(h) \/ Store(h) \/ Drop(h)
Make(o) == o \notin alive /\ alive' = alive \cup {o} /\ UNCHANGED <<cur, refs, klock, pr>>
\* in the hands of a call that has not stored or returned it yet
Pinned(o) == \E h \in Th : \/ (pr[h].op = "insert" /\ pr[h].b = o)
                           \/ (pr[h].op = "get" /\ pr[h].st = 6 /\ pr[h].x = o)
Destroy(o) == /\ o \in alive /\ R(o) = 0 /\ ~Pinned(o)
              /\ alive' = alive \ {o} /\ UNCHANGED <<cur, refs, klock, pr>>

\* --- the specification on its own
CONSTANTS NKeys, MaxObj
VARIABLE made
MInit == NInit /\ made = 0
Held == {o \in DOMAIN refs : refs[o] > 0}
Total == LET RECURSIVE S(_) S(q) == IF q = {} THEN 0 ELSE LET o == CHOOSE o \in q : TRUE IN refs[o] + S(q \ {o}) IN S(Held)
MNext == \E h \in Th :
  \/ (Total < 3 /\ \E k \in 1..NKeys : Open(h, "get", k, 0) /\ UNCHANGED <<cur, refs, alive, klock, made>>)
  \/ \E o \in Held : /\ Cardinality({g \in Th : pr[g].op = "drop" /\ pr[g].a = o /\ pr[g].st = 0}) < refs[o]
                     /\ Open(h, "drop", o, 0) /\ UNCHANGED <<cur, refs, alive, klock, made>>
  \/ Step(h) /\ UNCHANGED made
  \/ ComputeStart(h) /\ UNCHANGED made
  \/ (made < MaxObj /\ made' = made + 1 /\ Make(made + 1))
  \/ (made > 0 /\ ~(made \in DOMAIN refs) /\ ~Pinned(made) /\ ComputeEnd(h, made) /\ UNCHANGED made)
  \/ ComputeThrow(h) /\ UNCHANGED made
  \/ (\E o \in alive : o \in DOMAIN refs /\ Destroy(o) /\ UNCHANGED made)
  \/ (pr[h].op # "none" /\ Close(h, pr[h].op, pr[h].a, pr[h].r) /\ UNCHANGED <<cur, refs, alive, klock, made>>)
Spec == MInit /\ [][MNext]_<<cur, refs, alive, klock, pr, made>>
HeldAlive == Held \subseteq alive
\* every held object is the current one of its name, and only of one name
OneName == \A o \in Held : Cardinality({k \in DOMAIN cur : cur[k] = o}) = 1
OneCompute == \A g, h \in Th : (g # h /\ pr[g].op = "get" /\ pr[h].op = "get" /\ pr[g].st = 5 /\ pr[h].st = 5) => pr[g].a # pr[h].a
=============================================================================
