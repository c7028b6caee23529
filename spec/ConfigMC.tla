------------------------------ MODULE ConfigMC ------------------------------
(* The effect of writes on a small register (two bytes of two bits): every
   assignment of access kinds, every sequence of writes.                     *)
EXTENDS ConfigSpace
CONSTANT Depth
Bit == {0, 1, 8, 9}
VARIABLES acc, reg, reg0, n, last
vars == <<acc, reg, reg0, n, last>>
Of(a) == {b \in Bit : acc[b] = a}
Init == /\ acc \in [Bit -> {"RO", "RW", "W1C"}] /\ reg \in SUBSET Bit /\ reg0 = reg /\ n = 0 /\ last = <<>>
Next == /\ n < Depth /\ \E d \in SUBSET Bit, en \in SUBSET {0, 1} :
             /\ reg' = Write(reg, d, en, Of("RW"), Of("W1C"))
             /\ last' = <<reg, d, en>>
        /\ n' = n + 1 /\ UNCHANGED <<acc, reg0>>
Spec == Init /\ [][Next]_vars
ReadOnly == reg \cap Of("RO") = reg0 \cap Of("RO")
ClearOnly == reg \cap Of("W1C") \subseteq reg0
Exact == last # <<>> => LET o == last[1] d == last[2] b == Lane(last[3]) IN
  \A x \in Bit : CASE x \notin b -> (x \in reg <=> x \in o)
                   [] acc[x] = "RW" -> (x \in reg <=> x \in d)
                   [] acc[x] = "W1C" -> (x \in reg <=> x \in o /\ x \notin d)
                   [] OTHER -> (x \in reg <=> x \in o)
=============================================================================
