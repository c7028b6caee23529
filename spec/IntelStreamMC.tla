---------------------------- MODULE IntelStreamMC ----------------------------
(* Source and sink clock by clock: the source stalls as it likes, the sink stops
   being ready one clock after its queue went over the limit and whenever it
   likes, the reader takes TLPs as it likes. Nothing is lost, and what arrives
   after the sink stopped is bounded by the ready latency.                    *)
EXTENDS IntelStream
CONSTANTS L, Segs, Lanes, MaxLen, Frames, Limit
VARIABLES todo, cur, hist, ready, beat, part, queue, got
vars == <<todo, cur, hist, ready, beat, part, queue, got>>
\* todo: lengths; cur: [n, have] of the TLP being sent or << >>; beat: segments [sop, eop, emp, k (TLP), from, n] presented at the next clock
Init == /\ todo \in UNION {[1..k -> 1..MaxLen] : k \in 0..Frames}
        /\ cur = << >> /\ hist = << >> /\ ready = 0 /\ beat = << >> /\ part = << >> /\ queue = << >> /\ got = << >>
RECURSIVE Fill(_, _, _, _)
Fill(c, q, k, b) ==   \* one way: as full as possible; k segments left
  IF k = 0 \/ (c = << >> /\ q = << >>) THEN <<b, c, q>>
  ELSE LET n == IF c = << >> THEN [id |-> Len(q), n |-> q[1], have |-> 0] ELSE c[1]
           t == Take(Lanes, n.have, n.n)
           done == Eop(Lanes, n.have, n.n)
       IN Fill(IF done THEN << >> ELSE <<[n EXCEPT !.have = @ + t]>>, IF c = << >> THEN Tail(q) ELSE q, k - 1,
               Append(b, [sop |-> n.have = 0, eop |-> done, emp |-> IF done THEN Empty(Lanes, n.have, n.n) ELSE 0, id |-> n.id]))
RECURSIVE Apart(_, _, _)
Apart(b, p, q) ==
  IF b = << >> THEN <<p, q>>
  ELSE LET s == b[1]
           x == IF s.sop THEN [id |-> s.id, n |-> 0, bad |-> p # << >>] ELSE IF p = << >> THEN [id |-> 0, n |-> 0, bad |-> TRUE] ELSE p[1]
           y == [x EXCEPT !.n = @ + Lanes - s.emp, !.bad = @ \/ s.id # x.id]
       IN IF s.eop THEN Apart(Tail(b), << >>, Append(q, y)) ELSE Apart(Tail(b), <<y>>, q)
\* one clock: the beat on the wires is taken (L > 0: always; L = 0: with ready), ready and the next beat are chosen
Clock ==
  LET taken == beat # << >> /\ (L > 0 \/ ready = 1)
      a == IF taken THEN Apart(beat, part, queue) ELSE <<part, queue>>
      h == Push(L, hist, ready)
  IN /\ part' = a[1] /\ queue' = a[2] /\ hist' = h
     /\ ready' \in IF Len(queue) > Limit THEN {0} ELSE {0, 1}
     /\ IF L = 0 /\ beat # << >> /\ ~taken THEN UNCHANGED <<beat, cur, todo>>
        ELSE \/ beat' = << >> /\ UNCHANGED <<cur, todo>>
             \/ /\ MayPresent(L, h)
                /\ LET f == Fill(cur, todo, Segs, << >>) IN beat' = f[1] /\ cur' = f[2] /\ todo' = f[3]
     /\ UNCHANGED got
Read == queue # << >> /\ got' = Append(got, queue[1]) /\ queue' = Tail(queue) /\ UNCHANGED <<todo, cur, hist, ready, beat, part>>
Next == Clock \/ Read
Spec == Init /\ [][Next]_vars
\* a sink that is ready whenever it may be and a source that never stalls
Eager == Clock /\ ready' = (IF Len(queue) > Limit THEN 0 ELSE 1)
         /\ ((L = 0 /\ beat # << >> /\ ready = 0) \/ beat' # << >> \/ (todo = << >> /\ cur = << >>) \/ ~MayPresent(L, Push(L, hist, ready)))
Flow == Init /\ [][Eager \/ Read]_vars /\ WF_vars(Eager) /\ WF_vars(Read)
Window == beat # << >> /\ L > 0 => hist # << >>
Good == (\A i \in DOMAIN got : ~got[i].bad) /\ (\A i \in DOMAIN queue : ~queue[i].bad)
InOrder == LET all == got \o queue IN \A i, j \in DOMAIN all : i < j => all[i].id > all[j].id
Bound == Len(queue) <= Limit + Segs * (L + 2)
AllOut == <>[](todo = << >> /\ cur = << >> /\ beat = << >> /\ queue = << >>)
=============================================================================
