----------------------------- MODULE ErrStatMC -----------------------------
(* A switch with two endpoints and a third endpoint beside it; any TLPs, any
   settings, any clears.  `log` remembers what happened since each bit was
   last cleared: bits are never lost, never invented, and a TLP that is not
   poisoned and no failed completion changes nothing.                        *)
EXTENDS ErrStat, Sequences, TLC
CONSTANT N
VARIABLES bits, per, bper, why, n, last
vars == <<bits, per, bper, why, n, last>>
\* 1 root port, 2 upstream port, 3 5 downstream ports, 4 6 endpoints, 7 root port, 8 endpoint
Fns == 1..8
Bridges == {1, 2, 3, 5, 7}
Eps == {0, 4, 6, 8}
AboveOf == [x \in 0..8 |-> CASE x = 0 -> {} [] x = 1 -> {} [] x = 2 -> {1} [] x \in {3, 5} -> {1, 2} [] x = 4 -> {1, 2, 3} [] x = 6 -> {1, 2, 5} [] x = 7 -> {} [] x = 8 -> {7}]
Tlps == {[kind |-> k, st |-> s, ep |-> e] : k \in {"wr", "rd", "cpl"}, s \in {0, 1, 2, 4}, e \in BOOLEAN}
Init == /\ bits = [f \in Fns |-> None] /\ per \in {[f \in Fns |-> TRUE], [f \in Fns |-> f \in {2, 4}]} /\ bper \in {[f \in Fns |-> TRUE], [f \in Fns |-> f \in {3}]}
        /\ why = [f \in Fns |-> {}] /\ n = 0 /\ last = <<>>
Send == \E s \in Eps, d \in Eps, t \in Tlps :
  /\ s # d /\ (t.kind = "cpl" \/ t.st = 0)
  /\ LET e == [f \in Fns |-> Effect(f, s, d, t, AboveOf, per, bper)] IN
     /\ bits' = [f \in Fns |-> Or(bits[f], e[f])]
     /\ why' = [f \in Fns |-> why[f] \cup {<<b, t, f = s, f = d>> : b \in e[f].hi}]
     /\ last' = <<t, s, d, bits>>
  /\ UNCHANGED <<per, bper>>
Clear == \E f \in Fns : \E S \in SUBSET bits[f].hi :
  /\ S # {} /\ bits' = [bits EXCEPT ![f] = Minus(@, S)] /\ why' = [why EXCEPT ![f] = {w \in @ : w[1] \notin S}] /\ last' = <<>> /\ UNCHANGED <<per, bper>>
Next == n < N /\ n' = n + 1 /\ (Send \/ Clear)
Spec == Init /\ [][Next]_vars
Order == \A f \in Fns : bits[f].lo \subseteq bits[f].hi /\ bits[f].hi = {w[1] : w \in why[f]}
Caused == \A f \in Fns : \A w \in why[f] :
  /\ w[1][2] = "mdpe" => w[2].ep /\ (IF w[1][1] = "pri" THEN per[f] ELSE bper[f])
  /\ w[1][2] \in {"sta", "rta", "rma"} => w[2].kind = "cpl" /\ w[1][1] = "pri" /\ f \notin Bridges /\ w[2].st = (IF w[1][2] = "rma" THEN 1 ELSE 4)
  /\ (w[1][2] = "sta" => w[3]) /\ (w[1][2] \in {"rta", "rma"} => w[4])
  /\ w[1][1] = "sec" => f \in Bridges
Clean == last # <<>> /\ ~last[1].ep /\ last[1].st \in {0, 2} => bits = last[4]
\* every poisoned write or completion is noticed by each bridge on the way and by both ends, where reporting is on
Noticed == last # <<>> /\ last[1].ep /\ last[1].kind # "rd" /\ (\A f \in Fns : per[f] /\ bper[f]) =>
  /\ \A f \in (AboveOf[last[2]] \cup AboveOf[last[3]]) \ (AboveOf[last[2]] \cap AboveOf[last[3]]) : bits[f].lo \cap (Pri \cup Sec) # {}
  /\ \A f \in {IF last[1].kind = "wr" THEN last[2] ELSE last[3]} \ {0} : <<"pri", "mdpe">> \in bits[f].lo
=============================================================================
