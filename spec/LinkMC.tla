------------------------------- MODULE LinkMC -------------------------------
(* Two ports of Link.tla joined by two FIFO channels that may lose DLLPs and
   repeat TLPs; receivers may release buffers in any order.  Exhaustive model
   for C01 (no overflow), C02 (conservation, progress), C03 (handshake) and
   C04 (exactly-once in-order delivery, acknowledgement windows). *)
EXTENDS Link, TLC

CONSTANTS Inits,     \* candidate receive-buffer allocations: set of [Class -> <<h, d>>]
          Budgets,   \* <<TLPs port 0 may send, TLPs port 1 may send>>
          Cls,       \* classes of the TLPs that are sent
          Pre,       \* start with flow control already initialised
          Sizes,     \* data credits a TLP may need
          K,         \* channel capacity
          Faults     \* losses / repetitions allowed in total

VARIABLES port, ch, held, budget, sent, dlv, faults
vars == <<port, ch, held, budget, sent, dlv, faults>>
P2 == {0, 1}

Init ==
  /\ \E i0, i1 \in Inits :
        LET i(p) == IF p = 0 THEN i0 ELSE i1 IN
        port = [p \in P2 |-> IF Pre THEN [PortInit(i(p)) EXCEPT !.got = Class, !.fi2 = TRUE, !.alloc = i(1-p), !.lim = i(1-p)]
                             ELSE PortInit(i(p))]
  /\ ch = [p \in P2 |-> <<>>]         \* ch[p]: packets sent by p
  /\ held = [p \in P2 |-> <<>>]       \* received, unreleased
  /\ budget = [p \in P2 |-> Budgets[p+1]]
  /\ sent = [p \in P2 |-> 0]          \* ghost: TLPs sent by p
  /\ dlv = [p \in P2 |-> 0]           \* ghost: TLPs of 1-p delivered at p (they are numbered, must be consecutive)
  /\ faults = Faults

Put(p, pkt) == Len(ch[p]) < K /\ ch' = [ch EXCEPT ![p] = Append(@, pkt)]

SendTlp(p, c, d) ==
  /\ budget[p] > 0 /\ CanSendTlp(port[p], c, d)
  /\ Unacked(port[p]) < SMod \div 2 - 1
  /\ Put(p, [k |-> "T", c |-> c, d |-> d, seq |-> port[p].ntx, n |-> sent[p]])
  /\ port' = [port EXCEPT ![p] = SentTlp(@, c, d)]
  /\ budget' = [budget EXCEPT ![p] = @ - 1]
  /\ sent' = [sent EXCEPT ![p] = @ + 1]
  /\ UNCHANGED <<held, dlv, faults>>

SendInit(p) ==
  /\ ~port[p].fi2 \/ ~port[1-p].fi2
  /\ LET c == InitClass(port[p]) IN
     Put(p, [k |-> InitKind(port[p]), c |-> c, h |-> port[p].grant[c][1], d |-> port[p].grant[c][2]])
  /\ port' = [port EXCEPT ![p].ini = (@ + 1) % 3]
  /\ UNCHANGED <<held, budget, sent, dlv, faults>>

SendUpdate(p, c) ==
  /\ port[p].fi2 /\ port[1-p].lim[c] # port[p].grant[c]
  /\ Put(p, [k |-> "U", c |-> c, h |-> port[p].grant[c][1], d |-> port[p].grant[c][2]])
  /\ UNCHANGED <<port, held, budget, sent, dlv, faults>>

SendAck(p) ==
  /\ port[1-p].ackd # (port[p].nrx - 1) % SMod
  /\ Put(p, [k |-> "ACK", seq |-> (port[p].nrx - 1) % SMod])
  /\ UNCHANGED <<port, held, budget, sent, dlv, faults>>

Recv(p) ==     \* p receives from 1-p
  /\ ch[1-p] # <<>>
  /\ LET m == Head(ch[1-p]) IN
     /\ ch' = [ch EXCEPT ![1-p] = Tail(@)]
     /\ CASE m.k = "T" ->
               LET good == TlpVerdict(port[p], m.seq) = "good" IN
               /\ port' = [port EXCEPT ![p] = RecvTlp(@, m.c, m.d, m.seq)]
               /\ held' = IF good THEN [held EXCEPT ![p] = Append(@, <<m.c, m.d>>)] ELSE held
               /\ dlv' = IF good THEN [dlv EXCEPT ![p] = IF m.n = @ THEN @ + 1 ELSE 99] ELSE dlv
          [] m.k = "ACK" -> port' = [port EXCEPT ![p] = RecvAck(@, m.seq)] /\ UNCHANGED <<held, dlv>>
          [] OTHER -> port' = [port EXCEPT ![p] = RecvFc(@, m.k, m.c, m.h, m.d)] /\ UNCHANGED <<held, dlv>>
  /\ UNCHANGED <<budget, sent, faults>>

Release(p) ==
  /\ held[p] # <<>>
  /\ \E i \in DOMAIN held[p] :
       /\ port' = [port EXCEPT ![p] = Released(@, held[p][i][1], held[p][i][2])]
       /\ held' = [held EXCEPT ![p] = SubSeq(@, 1, i-1) \o SubSeq(@, i+1, Len(@))]
  /\ UNCHANGED <<ch, budget, sent, dlv, faults>>

Lose(p) ==      \* a DLLP is lost
  /\ faults > 0 /\ ch[p] # <<>> /\ Head(ch[p]).k # "T"
  /\ ch' = [ch EXCEPT ![p] = Tail(@)] /\ faults' = faults - 1
  /\ UNCHANGED <<port, held, budget, sent, dlv>>

Repeat(p) ==    \* a TLP arrives twice
  /\ faults > 0 /\ ch[p] # <<>> /\ Head(ch[p]).k = "T" /\ Len(ch[p]) < K
  /\ ch' = [ch EXCEPT ![p] = <<Head(@)>> \o @] /\ faults' = faults - 1
  /\ UNCHANGED <<port, held, budget, sent, dlv>>

Next == \E p \in P2 :
  \/ \E c \in Cls, d \in Sizes : SendTlp(p, c, d)
  \/ SendInit(p) \/ SendAck(p) \/ Recv(p) \/ Release(p) \/ Lose(p) \/ Repeat(p)
  \/ \E c \in Class : SendUpdate(p, c)

Fair == \A p \in P2 : /\ SF_vars(SendInit(p)) /\ SF_vars(SendAck(p)) /\ WF_vars(Recv(p)) /\ WF_vars(Release(p))
                      /\ \A c \in Class : SF_vars(SendUpdate(p, c))
                      /\ SF_vars(\E c \in Cls, d \in Sizes : SendTlp(p, c, d))
Spec == Init /\ [][Next]_vars /\ Fair

(* C01 *) NoRxOverflow == \A p \in P2 : NoOverflow(port[p])
(* C01 *) TlpAfterInit == \A p \in P2 : sent[p] > 0 => port[p].fi2
(* C03 *) InitValues == \A p \in P2 : \A c \in port[p].got : port[p].alloc[c] = port[1-p].init[c]
(* C02 *) HeldOf(p, c) == {i \in DOMAIN held[p] : held[p][i][1] = c}
(* C02 *) Conservation ==      \* what is granted beyond what was received equals the free part of the buffer
  \A p \in P2, c \in Class :
     /\ InfRx(port[p], c, 1) \/ ((port[p].grant[c][1] - port[p].rcvd[c][1]) % HMod) = (port[p].init[c][1] - Cardinality(HeldOf(p, c))) % HMod
(* C04 *) ExactlyOnce == \A p \in P2 : dlv[p] <= sent[1-p]
(* C04 *) AckSound == \A p \in P2 : Unacked(port[p]) < SMod \div 2
(* C03 *) InitDone == <>[](\A p \in P2 : port[p].fi2)
(* C02 *) AllSent == <>(\A p \in P2 : budget[p] = 0 /\ dlv[p] = sent[1-p])
(* C04 *) AllAcked == <>(\A p \in P2 : Unacked(port[p]) = 0)

Order3 == << [P |-> <<1, 1>>, NP |-> <<1, 1>>, CPL |-> <<1, 2>>],
             [P |-> <<1, 2>>, NP |-> <<0, 0>>, CPL |-> <<0, 3>>] >>
Bud11 == <<1, 1>>
Bud10 == <<1, 0>>
Bud40 == <<4, 0>>
Bud61 == <<6, 1>>
Bud50 == <<5, 0>>
InitsA == {Order3[1]}
InitsB == {Order3[2]}
InitsAB == {Order3[1], Order3[2]}
=============================================================================
