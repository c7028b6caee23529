-------------------------------- MODULE TxnMC --------------------------------
(* A requester with a small tag space, a completer that answers requests in any
   order and in pieces, and callers that may give up.  The rules the code has to
   follow - a tag is taken only when free, a completion is kept only while its
   tag is in use, the tag is freed by the last piece or by giving up - imply
   that nobody is ever served with somebody else's data, as long as a tag is not
   taken again while an answer to its previous use is still on its way
   (Late = FALSE gives the requester that freedom; the invariant then fails,
   which is why the trace specification treats that case as ambiguous).      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Tags, Reqs, Pieces, Late

VARIABLES st, tag, got, owe, wire, next
vars == <<st, tag, got, owe, wire, next>>
(* st[r]: idle, wait (for a tag), out, done, lost;  owe: pieces the completer still has to send (request, pieces left)
   wire: completions on their way, in order per request: <<request, tag, last>>                                      *)
R == 1..Reqs
T == 0..(Tags - 1)
Init == st = [r \in R |-> "idle"] /\ tag = [r \in R |-> -1] /\ got = [r \in R |-> <<>>] /\ owe = [r \in R |-> 0] /\ wire = <<>> /\ next = 0

Active(t) == \E r \in R : st[r] = "out" /\ tag[r] = t
Pending(t) == \E r \in R : tag[r] = t /\ (owe[r] > 0 \/ \E i \in DOMAIN wire : wire[i][1] = r)
Free(t) == ~Active(t) /\ (Late => ~Pending(t))

Start(r) == st[r] = "idle" /\ st' = [st EXCEPT ![r] = "wait"] /\ UNCHANGED <<tag, got, owe, wire, next>>
(* the first free tag after the last one used *)
Pick == {k \in 1..Tags : Free((next + k) % Tags)}
Send(r) == /\ st[r] = "wait" /\ Pick # {}
           /\ LET k == CHOOSE k \in Pick : \A j \in Pick : k <= j t == (next + k) % Tags IN
              /\ st' = [st EXCEPT ![r] = "out"] /\ tag' = [tag EXCEPT ![r] = t] /\ next' = t
              /\ owe' = [owe EXCEPT ![r] = Pieces] /\ UNCHANGED <<got, wire>>
Answer(r) == owe[r] > 0 /\ owe' = [owe EXCEPT ![r] = @ - 1] /\ wire' = Append(wire, <<r, tag[r], owe[r] = 1>>) /\ UNCHANGED <<st, tag, got, next>>
Recv == /\ wire # <<>> /\ wire' = Tail(wire)
        /\ LET c == Head(wire) IN
           IF Active(c[2])
           THEN LET r == CHOOSE r \in R : st[r] = "out" /\ tag[r] = c[2] IN
                /\ got' = [got EXCEPT ![r] = Append(@, c[1])]
                /\ st' = IF c[3] THEN [st EXCEPT ![r] = "done"] ELSE st
           ELSE UNCHANGED <<got, st>>
        /\ UNCHANGED <<tag, owe, next>>
GiveUp(r) == st[r] = "out" /\ st' = [st EXCEPT ![r] = "lost"] /\ UNCHANGED <<tag, got, owe, wire, next>>

Next == Recv \/ \E r \in R : Start(r) \/ Send(r) \/ Answer(r) \/ GiveUp(r)
Fair == WF_vars(Recv) /\ \A r \in R : WF_vars(Start(r)) /\ SF_vars(Send(r)) /\ WF_vars(Answer(r))
Spec == Init /\ [][Next]_vars /\ Fair

Unique == \A r, s \in R : r # s /\ st[r] = "out" /\ st[s] = "out" => tag[r] # tag[s]
Right == \A r \in R : /\ \A i \in DOMAIN got[r] : got[r][i] = r
                      /\ st[r] = "done" => Len(got[r]) = Pieces
Served == \A r \in R : <>(st[r] \in {"done", "lost"})
=============================================================================
