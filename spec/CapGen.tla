------------------------------- MODULE CapGen -------------------------------
(* All sequences of D operations on K capabilities: <<k, 0>> removes, <<k, 1>>
   registers automatically, <<k, 2 + i>> registers at the i-th fixed offset.  *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS K, F, D
VARIABLES h, done
Init == h = <<>> /\ done = FALSE
Useful(k, o) == o # 0 \/ \E i \in DOMAIN h : h[i][1] = k      \* removing what was never there is covered by length-1 prefixes
Next == \/ /\ Len(h) < D
           /\ \E k \in 1..K, o \in 0..(1 + F) : Useful(k, o) /\ h' = Append(h, <<k, o>>)
           /\ UNCHANGED done
        \/ /\ Len(h) = D /\ ~done /\ PrintT("GEN " \o ToJson(h)) /\ done' = TRUE /\ UNCHANGED h
Spec == Init /\ [][Next]_<<h, done>>
=============================================================================
