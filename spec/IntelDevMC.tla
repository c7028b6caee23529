----------------------------- MODULE IntelDevMC ------------------------------
(* The pieces of the configuration output fit into their words without
   overlapping, for every combination of capabilities present, and every bit of
   every writable piece reaches the output.                                   *)
EXTENDS IntelDev, TLC
VARIABLES fam, o, sp, done
O == [PM : {16}, EXP : {28, 44}, MSI : {-1, 20}, MSIX : {-1, 60}, AER : {64}]
Init == /\ fam \in {"h", "l", "t"} /\ o \in O /\ done = FALSE /\ sp = << >>
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<fam, o>>
        /\ \E w \in DOMAIN Words(fam, o) : \E i \in DOMAIN Words(fam, o)[w] : LET p == Words(fam, o)[w][i] IN
           p[2] >= 0 /\ \E b \in p[3]..(p[3] + p[4] - 1) : sp' = [r \in {p[2]} |-> [v |-> {b}]]
Spec == Init /\ [][Next]_<<fam, o, sp, done>>
(* a single bit of the configuration space shows in at most three places (the low half of a word may be repeated), and no two pieces collide *)
Shown == {<<w, b>> \in (DOMAIN Words(fam, o)) \X (0..31) : b \in Word(fam, sp, o, 0, w)}
Pieces == (done \/ Disjoint(fam, o)) /\ (~done \/ Shown # {}) /\ Cardinality(Shown) <= 3 /\ \A x \in Shown : x[2] < (IF fam = "t" THEN 16 ELSE 32)
=============================================================================
