------------------------------ MODULE EnumGen ------------------------------
(* All hierarchies with N ports: a forest is the sequence of ports of the root
   complex or of a switch; a port leads to an endpoint device (<<>>) or to a
   switch given by its own non-empty forest.                                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT N
VARIABLES s, done

RECURSIVE Forests(_), PortsOf(_)
Forests(n) == IF n = 0 THEN {<<>>}
              ELSE UNION {{<<p>> \o r : p \in PortsOf(k), r \in Forests(n - k)} : k \in 1..n}
PortsOf(k) == IF k = 1 THEN {<<>>} ELSE Forests(k - 1)

Init == s \in Forests(N) /\ done = FALSE
Next == /\ ~done
        /\ PrintT("GEN " \o ToJson(s))
        /\ done' = TRUE /\ s' = s
Spec == Init /\ [][Next]_<<s, done>>
=============================================================================
