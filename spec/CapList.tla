------------------------------ MODULE CapList ------------------------------
(* Capability lists of a function: which structures are registered, where each
   lies in configuration space, and the linked list that software walks.
   A placement maps each registered capability to its offset (in dwords).     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Low(S) == CHOOSE x \in S : \A y \in S : x <= y
\* capabilities a and b at offsets x and y
Overlap(x, n, y, m) == x < y + m /\ y < x + n
NoOverlap(pl, len) == \A a, b \in DOMAIN pl : a = b \/ ~Overlap(pl[a], len[a], pl[b], len[b])
Inside(pl, len, lo, hi) == \A a \in DOMAIN pl : lo <= pl[a] /\ pl[a] + len[a] - 1 <= hi
Del(pl, k) == [a \in DOMAIN pl \ {k} |-> pl[a]]

\* what a registration may do: k lands at `off` if one is asked for, and no other
\* structure moves unless k took its place
RegOK(pl, pl2, len, k, off) ==
  /\ DOMAIN pl2 = DOMAIN pl \cup {k}
  /\ off # 0 => pl2[k] = off
  /\ \A a \in DOMAIN pl \ {k} : pl2[a] = pl[a] \/ Overlap(pl[a], len[a], pl2[k], len[k])
DelOK(pl, pl2, k) == pl2 = Del(pl, k)

\* the linked list: structures in order of offset
NextOf(pl, a) == LET up == {pl[b] : b \in {b \in DOMAIN pl : pl[b] > pl[a]}} IN IF up = {} THEN 0 ELSE Low(up)
FirstAt(pl) == IF DOMAIN pl = {} THEN 0 ELSE Low({pl[a] : a \in DOMAIN pl})

\* ------------------------------------------------------ the allocation policy
RECURSIVE Fit(_, _, _, _)
Fit(pl, len, n, at) ==        \* lowest free offset for n dwords
  IF \E a \in DOMAIN pl : Overlap(pl[a], len[a], at, n) THEN Fit(pl, len, n, at + 1) ELSE at
RECURSIVE Place(_, _, _)
Place(pl, len, todo) ==       \* todo: sequence of capabilities to place automatically, from offset 1
  IF todo = <<>> THEN pl ELSE Place(pl @@ (todo[1] :> Fit(pl, len, len[todo[1]], 1)), len, Tail(todo))
Order(S) == CHOOSE s \in [1..Cardinality(S) -> S] : {s[i] : i \in DOMAIN s} = S
Register(pl, len, k, off) ==
  LET rest == Del(pl, k) IN
  IF off = 0 /\ k \notin DOMAIN pl THEN Place(rest, len, <<k>>)
  ELSE LET o == IF off = 0 THEN pl[k] ELSE off
           hit == {a \in DOMAIN rest : Overlap(rest[a], len[a], o, len[k])} IN
       Place([a \in (DOMAIN rest \ hit) \cup {k} |-> IF a = k THEN o ELSE rest[a]], len, Order(hit))
=============================================================================
