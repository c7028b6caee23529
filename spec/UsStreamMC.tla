----------------------------- MODULE UsStreamMC -----------------------------
(* The stream interface as a system: a source packs TLPs into beats (starting a
   TLP in a later segment or not, as it likes), stalls as it likes, the sink is
   ready as it likes and takes the TLPs apart again.                         *)
EXTENDS UsStream
CONSTANTS N, SegN, MaxLen, MinLen, Frames
VARIABLES todo, cur, beat, open, part, got, sent
vars == <<todo, cur, beat, open, part, got, sent>>
\* todo: lengths still to send; cur: dwords of the TLP being packed not yet presented; beat: the presented beat or << >>
W == N \div SegN
Null == [sops |-> << >>, eops |-> << >>, d |-> << >>]
RECURSIVE Pack(_, _, _, _, _)
\* all ways to fill a beat: pos next free segment, c rest of current TLP, q lengths to come, k number of TLPs started before
Pack(pos, c, q, k, b) ==
  IF c # << >>
  THEN LET room == N - pos
           take == IF Len(c) <= room THEN Len(c) ELSE room
           b2 == [b EXCEPT !.d = [i \in 1..N |-> IF i > pos /\ i <= pos + take THEN c[i - pos] ELSE @[i]],
                           !.eops = IF take = Len(c) THEN Append(@, pos + take - 1) ELSE @]
           rest == SubSeq(c, take + 1, Len(c))
           np == ((pos + take + W - 1) \div W) * W
       IN IF rest # << >> THEN {<<b2, rest, q, k>>}
          ELSE {<<b2, << >>, q, k>>} \cup (IF np < N /\ q # << >> THEN Pack(np, [i \in 1..q[1] |-> <<k + 1, i>>], Tail(q), k + 1, [b2 EXCEPT !.sops = Append(@, np)]) ELSE {})
  ELSE {<<b, c, q, k>>}
Empty == [sops |-> << >>, eops |-> << >>, d |-> [i \in 1..N |-> <<0, 0>>]]
Fill == IF cur # << >> THEN Pack(0, cur, todo, sent, Empty)
        ELSE IF todo = << >> THEN {} ELSE Pack(0, [i \in 1..todo[1] |-> <<sent + 1, i>>], Tail(todo), sent + 1, [Empty EXCEPT !.sops = <<0>>])
Init == /\ todo \in UNION {[1..k -> MinLen..MaxLen] : k \in 0..Frames}
        /\ cur = << >> /\ beat = Null /\ open = FALSE /\ part = << >> /\ got = << >> /\ sent = 0
Present == /\ beat = Null
           /\ \E x \in Fill : beat' = x[1] /\ cur' = x[2] /\ todo' = x[3] /\ sent' = x[4]
           /\ UNCHANGED <<open, part, got>>
RECURSIVE Take(_, _, _, _)
Take(pc, d, p, g) == IF pc = << >> THEN <<p, g>>
  ELSE LET x == pc[1]
           base == IF x.start THEN << >> ELSE p
           np == base \o SubSeq(d, x.lo + 1, x.hi + 1)
       IN IF x.end THEN Take(Tail(pc), d, << >>, Append(g, np)) ELSE Take(Tail(pc), d, np, g)
Accept == /\ beat # Null
          /\ LET r == Pieces(N, open, beat.sops, beat.eops)
                 t == Take(r.pieces, beat.d, part, got)
             IN open' = r.busy /\ part' = t[1] /\ got' = t[2]
          /\ beat' = Null /\ UNCHANGED <<todo, cur, sent>>
Next == Present \/ Accept
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Marked == beat # Null => WellMarked(N, SegN, open, beat.sops, beat.eops)
InOrder == \A i \in DOMAIN got : \A j \in DOMAIN got[i] : got[i][j] = <<i, j>>
Delivered == <>[](todo = << >> /\ cur = << >> /\ beat = Null /\ part = << >> /\ Len(got) = sent)
=============================================================================
