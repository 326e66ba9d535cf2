------------------------------- MODULE SeekMC -------------------------------
(* Finding the nearest key at or below a target when keys can only be read  *)
(* upwards from a position, a few at a time: probe below the target at      *)
(* doubling distances until a key is found there, then halve the interval.  *)
EXTENDS Integers, FiniteSets
CONSTANTS End, Mistake         \* positions are 0..End
VARIABLES keys, target, step,  \* what there is, what is asked, the first distance
          low, high, probe, found, pc, answer, loops
vars == <<keys, target, step, low, high, probe, found, pc, answer, loops>>
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
LeastOf(S) == CHOOSE k \in S : \A j \in S : k <= j
MostOf(S) == CHOOSE k \in S : \A j \in S : k >= j
\* a fetch reads keys upwards from the probe, one at least if there is one
Fetches == LET up == {k \in keys : k >= probe} IN
           IF up = {} THEN {{}} ELSE {{k \in up : k <= m} : m \in up}
Right == LET b == {k \in keys : k <= target} IN IF b = {} THEN 0 ELSE MostOf(b)
Init == /\ keys \in SUBSET (0..End - 1) /\ target \in 0..End /\ step \in {1, 3}
        /\ low = 0 /\ high = target /\ probe = target /\ found = FALSE /\ pc = "go" /\ answer = -1 /\ loops = 0
Done(r) == pc' = "done" /\ answer' = r /\ UNCHANGED <<low, high, probe, found>>
Go(lo, hi, pr, fd) == low' = lo /\ high' = hi /\ probe' = pr /\ found' = fd /\ UNCHANGED <<pc, answer>>
Halve(lo, hi) == LET d == (hi - lo) \div 2 IN
                 IF d < (IF Mistake = "early" THEN 2 ELSE 1) THEN Done(lo) ELSE Go(lo, hi, lo + d, TRUE)
Step == /\ pc = "go" /\ loops' = loops + 1 /\ UNCHANGED <<keys, target, step>>
        /\ \E got \in Fetches :
             LET a == IF got = {} THEN End ELSE LeastOf(got)
                 b == IF got = {} THEN End ELSE MostOf(got)
                 first == IF target = End THEN a < target ELSE a <= target
             IN IF ~found /\ ~first
                THEN IF probe = 0 THEN Done(0)
                     ELSE Go(low, high, probe - Min2(Max2(high - probe, step), probe), FALSE)
                ELSE LET lo1 == IF found THEN low ELSE a IN
                     IF a <= target /\ target <= b /\ {k \in got : k <= target} # {}
                     THEN Done(MostOf({k \in got : k <= target}))
                     ELSE LET hi2 == IF target <= a THEN probe ELSE high
                              lo2 == IF b < target THEN (IF Mistake = "nocap" THEN b ELSE Min2(b, hi2)) ELSE lo1
                          IN Halve(lo2, hi2)
Next == Step \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
Correct == pc = "done" => answer = Right
\* an interval never turns inside out, and the number of steps is logarithmic
Sound == pc = "go" => low <= high /\ loops <= 12
Ends == <>(pc = "done")
=============================================================================
