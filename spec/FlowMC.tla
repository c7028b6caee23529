------------------------------- MODULE FlowMC -------------------------------
(* Two agents joined by a switch: credits per class on every link, one egress
   queue per direction in the switch, agents that work off what they receive in
   order and answer a request before they look at the next TLP.
   Direction d is from agent d to agent 3-d.
     up   received by the switch, buffers held        sw   the switch's egress queue, buffers still held
     st   taken off sw, waiting for credit            dn   received by the other agent, buffers held
     busy the agent is about to answer                 iss requests and writes issued so far
   Every link keeps TLPs of one class in order and loses none (Fifo); everything
   arrives and is answered (Done) as long as requests flow in one direction only
   or completion credits are not limited (Free); otherwise the two directions can
   block each other for good.                                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS K, Free, R1, R2, W1, W2      \* credits per class; unlimited completion credits; requests and writes of each agent

VARIABLES up, sw, st, dn, busy, iss, wr, got, seen
vars == <<up, sw, st, dn, busy, iss, wr, got, seen>>
Reqs == <<R1, R2>>
Writes == <<W1, W2>>
D == {1, 2}
Other(d) == 3 - d
None == [c |-> "-", i |-> 0]
Cnt(s, c) == Cardinality({i \in DOMAIN s : s[i].c = c})
Room(held, c) == (Free /\ c = "C") \/ held < K

Init == /\ up = [d \in D |-> <<>>] /\ sw = [d \in D |-> <<>>] /\ st = [d \in D |-> None] /\ dn = [d \in D |-> <<>>]
        /\ busy = [d \in D |-> 0] /\ iss = [d \in D |-> 0] /\ wr = [d \in D |-> 0] /\ got = [d \in D |-> 0]
        /\ seen = [d \in D |-> [c \in {"N", "P", "C"} |-> <<>>]]

UpRoom(d, c) == Room(Cnt(up[d], c) + Cnt(sw[d], c), c)
Issue(d) == /\ iss[d] < Reqs[d] /\ UpRoom(d, "N")
            /\ iss' = [iss EXCEPT ![d] = @ + 1] /\ up' = [up EXCEPT ![d] = Append(@, [c |-> "N", i |-> iss[d] + 1])]
            /\ UNCHANGED <<sw, st, dn, busy, wr, got, seen>>
Write(d) == /\ wr[d] < Writes[d] /\ UpRoom(d, "P")
            /\ wr' = [wr EXCEPT ![d] = @ + 1] /\ up' = [up EXCEPT ![d] = Append(@, [c |-> "P", i |-> wr[d] + 1])]
            /\ UNCHANGED <<sw, st, dn, busy, iss, got, seen>>
Answer(d) == /\ busy[d] # 0 /\ UpRoom(d, "C")
             /\ up' = [up EXCEPT ![d] = Append(@, [c |-> "C", i |-> busy[d]])] /\ busy' = [busy EXCEPT ![d] = 0]
             /\ UNCHANGED <<sw, st, dn, iss, wr, got, seen>>
RouteIt(d) == /\ up[d] # <<>>
              /\ sw' = [sw EXCEPT ![d] = Append(@, Head(up[d]))] /\ up' = [up EXCEPT ![d] = Tail(@)]
              /\ UNCHANGED <<st, dn, busy, iss, wr, got, seen>>
Stage(d) == /\ st[d] = None /\ sw[d] # <<>>
            /\ st' = [st EXCEPT ![d] = Head(sw[d])] /\ sw' = [sw EXCEPT ![d] = Tail(@)]
            /\ UNCHANGED <<up, dn, busy, iss, wr, got, seen>>
Forward(d) == /\ st[d] # None /\ Room(Cnt(dn[d], st[d].c), st[d].c)
              /\ dn' = [dn EXCEPT ![d] = Append(@, st[d])] /\ st' = [st EXCEPT ![d] = None]
              /\ UNCHANGED <<up, sw, busy, iss, wr, got, seen>>
(* agent a takes the next TLP *)
Take(a) == LET d == Other(a) IN
  /\ busy[a] = 0 /\ dn[d] # <<>>
  /\ LET p == Head(dn[d]) IN
     /\ dn' = [dn EXCEPT ![d] = Tail(@)]
     /\ busy' = [busy EXCEPT ![a] = IF p.c = "N" THEN p.i ELSE 0]
     /\ got' = [got EXCEPT ![a] = IF p.c = "C" THEN @ + 1 ELSE @]
     /\ seen' = [seen EXCEPT ![d][p.c] = Append(@, p.i)]
  /\ UNCHANGED <<up, sw, st, iss, wr>>

Next == \E d \in D : Issue(d) \/ Write(d) \/ Answer(d) \/ RouteIt(d) \/ Stage(d) \/ Forward(d) \/ Take(d)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Upto(s) == \A i \in DOMAIN s : s[i] = i
Fifo == \A d \in D : \A c \in {"N", "P", "C"} : Upto(seen[d][c])
Limits == \A d \in D : \A c \in {"N", "P"} : Cnt(up[d], c) + Cnt(sw[d], c) <= K /\ Cnt(dn[d], c) <= K
Done == <>[](\A d \in D : got[d] = Reqs[d] /\ Len(seen[d]["P"]) = Writes[d])
=============================================================================
