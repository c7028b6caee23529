------------------------------- MODULE CapMC -------------------------------
(* Every sequence of registrations and removals of K capabilities of every
   length up to L, at automatic or fixed offsets.                            *)
EXTENDS CapList
CONSTANTS K, L, O
VARIABLES pl, len, ok
vars == <<pl, len, ok>>
Caps == 1..K
Init == pl = << >> /\ len \in [Caps -> 1..L] /\ ok = TRUE
Next == \E k \in Caps : /\ UNCHANGED len
          /\ \/ \E off \in 0..O : pl' = Register(pl, len, k, off) /\ ok' = RegOK(pl, pl', len, k, off)
             \/ pl' = Del(pl, k) /\ ok' = DelOK(pl, pl', k)
Spec == Init /\ [][Next]_vars
RECURSIVE Walk(_, _)
Walk(p, n) == IF p = 0 \/ n = 0 THEN <<>> ELSE LET a == CHOOSE a \in DOMAIN pl : pl[a] = p IN <<a>> \o Walk(NextOf(pl, a), n - 1)
Disjoint == NoOverlap(pl, len)
Compact == Inside(pl, len, 1, O + 2 * L * K)        \* automatic placement does not run away
Allowed == ok
Listed == LET w == Walk(FirstAt(pl), K + 1) IN Len(w) = Cardinality(DOMAIN pl) /\ {w[i] : i \in DOMAIN w} = DOMAIN pl
=============================================================================
