----------------------------- MODULE LinkTrace -----------------------------
(* Validates wire-level traces of two connected ports against Link.tla.

   Records (p: port 0/1, t: ns, time stamped):
     link  p-independent: init (per port [[h,d] P, NP, CPL]), judge (ports whose
           behaviour is judged), lat (per port: deadline for credit updates, ns),
           acklat, names of limits
     sub   p c d id        application hands a TLP to the port
     tx    p c n seq id    the port puts a TLP with n payload bytes on the wire
     txd   p k c h d seq   the port puts a DLLP on the wire (k: I1 I2 U ACK NAK)
     rx    p c n seq id    a TLP arrives at the port
     rxd   p k c h d seq   a DLLP arrives at the port
     dlv   p id same       the port delivers a TLP to its receive handler
     rel   p id            the receive buffer of a delivered TLP is released
     rb    p n             size of the retry buffer after an ACK
     idle  q               nothing happened for a long time: everything that can
                           be sent must have been sent *)
EXTENDS VF, Link

VARIABLES l, st, dq, sq, held, due, adue, hdr

vars == <<l, st, dq, sq, held, due, adue, hdr>>

P2 == {0, 1}
NoDue == [c \in Class |-> -1]
EmptyQ == [c \in Class |-> <<>>]

Dc(n) == (n + 15) \div 16
MkInit(a) == [c \in Class |-> IF c = "P" THEN a[1] ELSE IF c = "NP" THEN a[2] ELSE a[3]]

TraceInit ==
  /\ l = 1
  /\ st = [p \in P2 |-> PortInit([c \in Class |-> <<0, 0>>])]
  /\ dq = [p \in P2 |-> <<>>]          \* received in order, not yet delivered
  /\ sq = [p \in P2 |-> EmptyQ]        \* submitted per class, not yet transmitted
  /\ held = [p \in P2 |-> <<>>]        \* id -> <<class, data credits>> of unreleased buffers
  /\ due = [p \in P2 |-> NoDue]        \* deadline for advertising released credits
  /\ adue = [p \in P2 |-> -1]          \* deadline for acknowledging
  /\ hdr = [judge |-> {}, lat |-> <<0, 0>>, acklat |-> <<0, 0>>]

e == T[l]
J(p) == p \in hdr.judge
On(p, fs) == IF J(p) THEN fs ELSE {}

Late(t) == UNION { On(p, Chk(adue[p] = -1 \/ t <= adue[p], "ack_deadline") \cup
                        UNION { Chk(due[p][c] = -1 \/ t <= due[p][c], "credit_update_deadline") : c \in Class}) : p \in P2 }
ClearLate(t) ==
  /\ due'  = [p \in P2 |-> [c \in Class |-> IF due[p][c] # -1 /\ t > due[p][c] THEN -1 ELSE due[p][c]]]
  /\ adue' = [p \in P2 |-> IF adue[p] # -1 /\ t > adue[p] THEN -1 ELSE adue[p]]

Step(fs) == Report(l, fs) /\ l' = l + 1

LinkEv ==
  /\ e.ev = "link"
  /\ st' = [p \in P2 |-> PortInit(MkInit(e.init[p+1]))]
  /\ dq' = [p \in P2 |-> <<>>] /\ sq' = [p \in P2 |-> EmptyQ] /\ held' = [p \in P2 |-> <<>>]
  /\ due' = [p \in P2 |-> NoDue] /\ adue' = [p \in P2 |-> -1]
  /\ hdr' = [judge |-> Range(e.judge), lat |-> e.lat, acklat |-> e.acklat]
  /\ Step({})

SubEv ==
  /\ e.ev = "sub"
  /\ sq' = [sq EXCEPT ![e.p][e.c] = Append(@, <<e.id, Dc(e.n)>>)]
  /\ Step({}) /\ UNCHANGED <<st, dq, held, due, adue, hdr>>

TxEv ==
  /\ e.ev = "tx"
  /\ LET s == st[e.p] d == Dc(e.n) q == sq[e.p][e.c] IN
     /\ Step(Late(e.t) \cup On(e.p,
             Chk(s.fi2, "tlp_before_fc_init")
             \cup Chk(~s.fi2 \/ HasCredit(s, e.c, d), "credit_exceeded")
             \cup Chk(e.seq = s.ntx, "tx_sequence")
             \cup Chk(q # <<>> /\ e.id \in {q[i][1] : i \in DOMAIN q}, "tx_unknown_or_repeated")
             \cup Chk(q = <<>> \/ e.id = q[1][1], "tx_order")))
     /\ st' = [st EXCEPT ![e.p] = [SentTlp(s, e.c, d) EXCEPT !.ntx = (e.seq + 1) % SMod]]
     /\ sq' = [sq EXCEPT ![e.p][e.c] = SelectSeq(@, LAMBDA x : x[1] # e.id)]
  /\ ClearLate(e.t)
  /\ UNCHANGED <<dq, held, hdr>>

TxdEv ==
  /\ e.ev = "txd"
  /\ LET s == st[e.p] IN
     /\ Step(Late(e.t) \cup On(e.p,
          CASE e.k \in {"I1", "I2"} ->
                 Chk(e.k = InitKind(s), "init_phase") \cup Chk(e.c = InitClass(s), "init_cycle")
                 \cup Chk(<<e.h, e.d>> = s.grant[e.c], "init_value")
            [] e.k = "U" -> Chk(s.fi2, "update_before_init") \cup Chk(<<e.h, e.d>> = s.grant[e.c], "update_value")
            [] e.k = "ACK" -> Chk(e.seq = (s.nrx - 1) % SMod, "ack_sequence") \cup Chk(~s.nak, "ack_instead_of_nak")
            [] e.k = "NAK" -> Chk(e.seq = (s.nrx - 1) % SMod, "nak_sequence") \cup Chk(s.nak /\ adue[e.p] # -1, "spurious_nak")
            [] OTHER -> {"dllp_kind"}))
     /\ st' = [st EXCEPT ![e.p].ini = IF e.k \in {"I1", "I2"} THEN @ + 1 ELSE @]
     /\ due' = [due EXCEPT ![e.p] = IF e.k \in {"I1", "I2", "U"} THEN [@ EXCEPT ![e.c] = -1] ELSE @]
     /\ adue' = [adue EXCEPT ![e.p] = IF e.k \in {"ACK", "NAK"} THEN -1 ELSE @]
  /\ UNCHANGED <<dq, sq, held, hdr>>

RxEv ==
  /\ e.ev = "rx"
  /\ LET s == st[e.p] d == Dc(e.n) v == TlpVerdict(s, e.seq) s2 == RecvTlp(s, e.c, d, e.seq) IN
     /\ st' = [st EXCEPT ![e.p] = s2]
     /\ dq' = IF v = "good" THEN [dq EXCEPT ![e.p] = Append(@, e.id)] ELSE dq
     /\ held' = IF v = "good" THEN [held EXCEPT ![e.p] = (e.id :> <<e.c, d>>) @@ @] ELSE held
     /\ adue' = [adue EXCEPT ![e.p] = IF @ # -1 THEN Min(@, e.t + hdr.acklat[e.p+1])
                                      ELSE IF v = "gap" /\ s.nak THEN @ ELSE e.t + hdr.acklat[e.p+1]]
     /\ Step(On(1 - e.p, Chk(NoOverflow(s2), "receiver_overflow")))
  /\ UNCHANGED <<sq, due, hdr>>

RxdEv ==
  /\ e.ev = "rxd"
  /\ LET s == st[e.p] IN
     st' = [st EXCEPT ![e.p] = IF e.k \in {"I1", "I2", "U"} THEN RecvFc(s, e.k, e.c, e.h, e.d)
                               ELSE IF e.k \in {"ACK", "NAK"} THEN RecvAck(s, e.seq) ELSE s]
  /\ Step({}) /\ UNCHANGED <<dq, sq, held, due, adue, hdr>>

DlvEv ==
  /\ e.ev = "dlv"
  /\ Step(On(e.p, Chk(dq[e.p] # <<>> /\ e.id \in Range(dq[e.p]), "delivered_unexpected")
                  \cup Chk(dq[e.p] = <<>> \/ Head(dq[e.p]) = e.id, "delivery_order")
                  \cup Chk(e.same, "delivered_modified")))
  /\ dq' = [dq EXCEPT ![e.p] = SelectSeq(@, LAMBDA x : x # e.id)]
  /\ UNCHANGED <<st, sq, held, due, adue, hdr>>

RelEv ==
  /\ e.ev = "rel"
  /\ IF e.id \in DOMAIN held[e.p]
     THEN LET c == held[e.p][e.id][1] d == held[e.p][e.id][2] s == st[e.p] IN
          /\ st' = [st EXCEPT ![e.p] = Released(s, c, d)]
          /\ held' = [held EXCEPT ![e.p] = [x \in DOMAIN @ \ {e.id} |-> @[x]]]
          /\ due' = [due EXCEPT ![e.p][c] =
                       IF @ # -1 \/ (InfRx(s, c, 1) /\ InfRx(s, c, 2)) \/ ~s.fi2 THEN @ ELSE e.t + hdr.lat[e.p+1]]
     ELSE UNCHANGED <<st, held, due>>            \* releasing again has no effect
  /\ Step({}) /\ UNCHANGED <<dq, sq, adue, hdr>>

RbEv ==
  /\ e.ev = "rb"
  /\ Step(On(e.p, Chk(e.n = -1 \/ e.n = Unacked(st[e.p]), "ack_window")))
  /\ UNCHANGED <<st, dq, sq, held, due, adue, hdr>>

(* after a quiet period longer than every timer nothing that could move may be waiting *)
IdleEv ==
  /\ e.ev = "idle"
  /\ Step(Late(e.t) \cup UNION { On(p,
         Chk(st[p].fi2, "fc_init_incomplete")
         \cup Chk(dq[p] = <<>>, "not_delivered")
         \cup Chk(adue[p] = -1, "not_acknowledged")
         \cup UNION { LET q == sq[p][c] IN
                      Chk(q = <<>> \/ ~HasCredit(st[p], c, q[1][2]), "blocked_with_credit") : c \in Class }) : p \in P2 })
  /\ ClearLate(e.t)
  /\ UNCHANGED <<st, dq, sq, held, hdr>>

(* the end of a run in which everything was released: everything must have arrived, all credit is back *)
EndEv ==
  /\ e.ev = "end"
  /\ Step(UNION { On(p, UNION { Chk(sq[p][c] = <<>>, "never_sent") : c \in Class }
                       \cup Chk(e.held \/ \A c \in Class :
                                  /\ InfTx(st[p], c, 1) \/ st[p].lim[c][1] = (st[p].alloc[c][1] + st[p].cons[c][1]) % HMod
                                  /\ InfTx(st[p], c, 2) \/ st[p].lim[c][2] = (st[p].alloc[c][2] + st[p].cons[c][2]) % DMod,
                                "credit_not_returned")) : p \in P2 })
  /\ UNCHANGED <<st, dq, sq, held, due, adue, hdr>>

CrashEv ==
  /\ e.ev = "crash"
  /\ Step({"crash_" \o e.why})
  /\ UNCHANGED <<st, dq, sq, held, due, adue, hdr>>

TraceNext == /\ l <= Len(T)
             /\ (LinkEv \/ SubEv \/ TxEv \/ TxdEv \/ RxEv \/ RxdEv \/ DlvEv \/ RelEv \/ RbEv \/ IdleEv \/ EndEv \/ CrashEv)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
