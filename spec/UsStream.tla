------------------------------ MODULE UsStream ------------------------------
(* TLPs on the UltraScale(+) request/completion streams (PG156, PG213): which
   TLPs a sequence of accepted beats carries, and what the markers of a beat
   must say.  A beat has n dword lanes in segs segments; without straddling a
   beat belongs to one TLP, with straddling a TLP may start at a segment if the
   one before it ended earlier in the same beat.                             *)
EXTENDS Integers, Sequences, FiniteSets

\* The TLPs in a beat as pieces [lo, hi, start, end] of consecutive lanes.
\* busy: a TLP is in progress; sops, eops: start and end lanes in marker order
RECURSIVE P(_, _, _, _, _, _)
P(n, pos, open, sops, eops, acc) ==
  IF open
  THEN IF eops = << >> THEN [pieces |-> Append(acc, [lo |-> pos, hi |-> n - 1, start |-> FALSE, end |-> FALSE]), busy |-> TRUE, sops |-> sops, eops |-> eops]
       ELSE P(n, eops[1] + 1, FALSE, sops, Tail(eops), Append(acc, [lo |-> pos, hi |-> eops[1], start |-> FALSE, end |-> TRUE]))
  ELSE IF sops = << >> THEN [pieces |-> acc, busy |-> FALSE, sops |-> sops, eops |-> eops]
       ELSE LET s == sops[1] IN
            IF eops = << >> THEN [pieces |-> Append(acc, [lo |-> s, hi |-> n - 1, start |-> TRUE, end |-> FALSE]), busy |-> TRUE, sops |-> Tail(sops), eops |-> eops]
            ELSE P(n, eops[1] + 1, FALSE, Tail(sops), Tail(eops), Append(acc, [lo |-> s, hi |-> eops[1], start |-> TRUE, end |-> TRUE]))
Pieces(n, busy, sops, eops) == P(n, 0, busy, sops, eops, << >>)

\* a legal sequence of markers for a beat
WellMarked(n, segs, busy, sops, eops) ==
  LET r == Pieces(n, busy, sops, eops)
      w == n \div segs
      pc == r.pieces
  IN /\ r.sops = << >> /\ r.eops = << >>
     /\ pc # << >>
     /\ \A i \in DOMAIN pc : pc[i].lo <= pc[i].hi /\ pc[i].hi < n
     /\ \A i \in DOMAIN pc : pc[i].start => pc[i].lo % w = 0
     /\ pc[1].lo = 0                                   \* nothing starts later unless something ended before it
     /\ \A i \in 1..(Len(pc) - 1) : pc[i].end /\ pc[i + 1].lo > pc[i].hi
          /\ pc[i + 1].lo \div w = (pc[i].hi \div w) + 1  \* in the next segment
=============================================================================
