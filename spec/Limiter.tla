------------------------------ MODULE Limiter ------------------------------
(* Rate limiting by a token bucket with debt, in a trace of (client, start *)
(* ms, end ms) requests of cost 1: no burst beyond the allowance and no    *)
(* waiting beyond the debt.                                                *)
EXTENDS Integers, Sequences
\* requests i..j all finished within [end i, end j]: at most rate*time + burst + one per client, plus clock rounding
NotTooFast(req, rate, burst, clients) ==
  \A i \in 1..Len(req) : \A j \in i..Len(req) :
     (j - i + 1) * 1000 <= rate * (req[j].b - req[i].b + 2) + 1000 * (burst + clients)
\* nobody waits longer than it takes to earn every request made so far
NotTooSlow(req, rate) ==
  \A i \in 1..Len(req) : (req[i].b - req[i].a) * rate <= 1000 * req[i].n + 2 * rate
=============================================================================
