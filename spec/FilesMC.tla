------------------------------ MODULE FilesMC ------------------------------
(* Every layout of a small file is described completely.                    *)
EXTENDS Files
CONSTANTS N
Item == {<<b, <<n, 0>>, t, p, 0, c>> : b \in 0..N - 1, n \in 1..2, t \in {1, 2}, p \in {0, 9}, c \in {0, 1}}
Ordered(s) == \A k \in 1..Len(s) - 1 : Le(End(s[k]), B(s[k + 1][1]))
Init == items \in {s \in UNION {[1..n -> Item] : n \in 0..2} : Ordered(s)} /\ size \in {<<b, x>> : b \in 0..N + 1, x \in {0, 5}}
Spec == Init /\ [][FALSE]_<<items, size>>
Exact == Covers(Entries(items, size), size)
Same(e) == \A b \in e[1][1]..(e[2][1] - 1) : \A t \in {items[k] : k \in DOMAIN items} :
             (t[1] <= b /\ b < t[1] + t[2][1]) => e[3] = Kind(t) /\ (Kind(t) # 0 /\ t[6] = 0 => e[4] + (b - e[1][1]) = t[4] + t[5] + (b - t[1]))
Truthful == \A k \in DOMAIN Entries(items, size) : Same(Entries(items, size)[k])
Placed == size # B(0) => \A b \in 0..N + 1 : Index(Entries(items, size), b) \in DOMAIN Entries(items, size)
=============================================================================
