------------------------------- MODULE UsRqMC -------------------------------
(* The request path of the UltraScale models: the stream task, the queue of
   non-posted requests that wait for a tag, and the task that empties it.
   Every sequence of N posted and non-posted requests, K tags, a queue of L.  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, K, L
VARIABLES in, q, hold, held, busy, out, hist
vars == <<in, q, hold, held, busy, out, hist>>
(* in: requests still to come (<<index, kind>>); q: the queue; hold: << >> or the request taken out of it
   held: << >> or the request the stream task is stuck with; busy: tag -> request index or 0; out: what left, [i, k, t] *)
Kinds == {"P", "N"}
Free == {t \in 1..K : busy[t] = 0}
Init == /\ in \in {[i \in 1..N |-> <<i, f[i]>>] : f \in [1..N -> Kinds]}
        /\ q = << >> /\ hold = << >> /\ held = << >> /\ busy = [t \in 1..K |-> 0] /\ out = << >> /\ hist = in
Send(r, t) == out' = Append(out, [i |-> r[1], k |-> r[2], t |-> t])
(* the stream task *)
Take ==
  /\ in # << >> /\ held = << >>
  /\ LET r == in[1] IN
     /\ in' = Tail(in)
     /\ IF r[2] = "P" THEN Send(r, 0) /\ UNCHANGED <<q, held, busy>>
        ELSE IF q = << >> /\ hold = << >> /\ Free # {}
        THEN \E t \in Free : Send(r, t) /\ busy' = [busy EXCEPT ![t] = r[1]] /\ UNCHANGED <<q, held>>
        ELSE held' = <<r>> /\ UNCHANGED <<q, busy, out>>
  /\ UNCHANGED <<hold, hist>>
Enqueue == /\ held # << >> /\ Len(q) < L /\ q' = Append(q, held[1]) /\ held' = << >> /\ UNCHANGED <<in, hold, busy, out, hist>>
(* the queue task *)
Get == /\ hold = << >> /\ q # << >> /\ hold' = <<q[1]>> /\ q' = Tail(q) /\ UNCHANGED <<in, held, busy, out, hist>>
Put == /\ hold # << >> /\ Free # {}
       /\ \E t \in Free : Send(hold[1], t) /\ busy' = [busy EXCEPT ![t] = hold[1][1]]
       /\ hold' = << >> /\ UNCHANGED <<in, q, held, hist>>
Complete == \E t \in 1..K : busy[t] # 0 /\ busy' = [busy EXCEPT ![t] = 0] /\ UNCHANGED <<in, q, hold, held, out, hist>>
Next == Take \/ Enqueue \/ Get \/ Put \/ Complete
Spec == Init /\ [][Next]_vars /\ WF_vars(Take) /\ WF_vars(Enqueue) /\ WF_vars(Get) /\ WF_vars(Put) /\ WF_vars(Complete)

Of(k) == SelectSeq(out, LAMBDA x : x.k = k)
Rising(s) == \A i, j \in DOMAIN s : i < j => s[i].i < s[j].i
InOrder == Rising(Of("P")) /\ Rising(Of("N"))
(* a non-posted request never passes a posted one; a posted one waits at most for room in the queue *)
NoPass == \A i, j \in DOMAIN out : i < j /\ out[i].k = "N" /\ out[j].k = "P" => out[j].i > out[i].i
Posted == held = << >> \/ Len(q) >= L \/ ENABLED Enqueue
OwnTag == \A t, u \in 1..K : t # u /\ busy[t] # 0 => busy[t] # busy[u]
AllOut == <>[](Len(out) = N /\ busy = [t \in 1..K |-> 0])
=============================================================================
