------------------------------ MODULE ObjPool ------------------------------
(* The pool of reusable objects: one user per object; a released object    *)
(* passes the check-in once and only then can be handed out again; a new   *)
(* one is made only when none is free.                                     *)
EXTENDS Procs
VARIABLES free, used, doomed, gone, hasout       \* gone: the pool was destroyed
ovars == <<free, used, doomed, gone, hasout, pr>>
OInit(o) == free = {} /\ used = {} /\ doomed = {} /\ gone = FALSE /\ hasout = o /\ ProcInit
Exist == free \cup used \cup doomed
Fix == UNCHANGED <<gone, hasout>>
Take(h) == /\ At(h, {"get"}, 0) /\ free # {} /\ \E o \in free : (free' = free \ {o} /\ used' = used \cup {o} /\ ToX(h, IF hasout = 1 THEN 5 ELSE 6, o))
           /\ UNCHANGED doomed /\ Fix
Empty(h) == At(h, {"get"}, 0) /\ free = {} /\ To(h, 3) /\ UNCHANGED <<free, used, doomed>> /\ Fix
Make(h, o) == /\ At(h, {"get"}, 3) /\ o \notin Exist /\ used' = used \cup {o} /\ ToX(h, IF hasout = 1 THEN 5 ELSE 6, o)
              /\ UNCHANGED <<free, doomed>> /\ Fix
MakeThrow(h) == At(h, {"get"}, 3) /\ Ret(h, 0) /\ UNCHANGED <<free, used, doomed>> /\ Fix
Out(h, o) == At(h, {"get"}, 5) /\ pr[h].x = o /\ To(h, 6) /\ UNCHANGED <<free, used, doomed>> /\ Fix
\* the check-out failed: the object goes straight back
OutThrow(h, o) == At(h, {"get"}, 6) /\ hasout = 1 /\ pr[h].x = o /\ To(h, 7) /\ UNCHANGED <<free, used, doomed>> /\ Fix
Given(h) == At(h, {"get"}, 6) /\ Ret(h, pr[h].x) /\ UNCHANGED <<free, used, doomed>> /\ Fix
Let(h) == /\ At(h, {"drop"}, 0) /\ pr[h].a \in used /\ UNCHANGED <<free>> /\ Fix
          /\ \/ (~gone \/ \E g \in Th : g # h /\ pr[g].op = "drop" /\ pr[g].st \in {7, 8}) /\ ToX(h, 7, pr[h].a) /\ UNCHANGED <<used, doomed>>
             \/ gone /\ used' = used \ {pr[h].a} /\ doomed' = doomed \cup {pr[h].a} /\ Ret(h, 0)
CheckIn(h, o) == /\ At(h, {"get", "drop"}, 7) /\ pr[h].x = o /\ o \in used /\ To(h, 8) /\ UNCHANGED <<free, used, doomed>> /\ Fix
Back(h) == /\ At(h, {"get", "drop"}, 8) /\ used' = used \ {pr[h].x}
           /\ IF gone THEN doomed' = doomed \cup {pr[h].x} /\ UNCHANGED free
                      ELSE free' = free \cup {pr[h].x} /\ UNCHANGED doomed
           /\ Ret(h, 0) /\ Fix
ClearAll(h) == At(h, {"clear"}, 0) /\ Ret(h, 0) /\ doomed' = doomed \cup free /\ free' = {} /\ UNCHANGED used /\ Fix
DestroyPool(h) == /\ At(h, {"destroy"}, 0) /\ Ret(h, 0) /\ doomed' = doomed \cup free /\ free' = {} /\ gone' = TRUE
                  /\ UNCHANGED <<used, hasout>>
Delete(o) == o \in doomed /\ doomed' = doomed \ {o} /\ UNCHANGED <<free, used, pr>> /\ Fix
Step(h) == Take(h) \/ Empty(h) \/ Given(h) \/ Let(h) \/ Back(h) \/ ClearAll(h) \/ DestroyPool(h)
CONSTANT MaxObj
VARIABLES made, user      \* user: object -> thread that was given it
MInit == OInit(1) /\ made = 0 /\ user = << >>
Frame == UNCHANGED <<free, used, doomed, gone, hasout>>
MNext == \E h \in Th :
  \/ (~gone /\ \E op \in {"get", "clear", "destroy"} : (op # "get" => \A g \in Th : pr[g].op # "get") /\ (op = "get" => \A g \in Th : pr[g].op # "destroy") /\ Open(h, op, 0, 0) /\ Frame /\ UNCHANGED <<made, user>>)
  \/ (\E o \in DOMAIN user : user[o] = h /\ Open(h, "drop", o, 0) /\ user' = Put(user, o, 0) /\ Frame /\ UNCHANGED made)
  \/ Step(h) /\ UNCHANGED <<made, user>>
  \/ (made < MaxObj /\ made' = made + 1 /\ Make(h, made + 1) /\ UNCHANGED user)
  \/ (\E o \in Exist : (Out(h, o) \/ OutThrow(h, o) \/ CheckIn(h, o) \/ Delete(o)) /\ UNCHANGED <<made, user>>)
  \/ (pr[h].op = "get" /\ pr[h].r # 0 /\ Close(h, "get", 0, pr[h].r) /\ user' = Put(user, pr[h].r, h) /\ Frame /\ UNCHANGED made)
  \/ (pr[h].op # "none" /\ (pr[h].op = "get" => pr[h].r = 0) /\ Close(h, pr[h].op, pr[h].a, pr[h].r) /\ Frame /\ UNCHANGED <<made, user>>)
Spec == MInit /\ [][MNext]_<<free, used, doomed, gone, hasout, pr, made, user>>
Apart == free \cap used = {} /\ free \cap doomed = {} /\ used \cap doomed = {}
UsersOk == \A o \in DOMAIN user : user[o] # 0 => o \in used
=============================================================================
