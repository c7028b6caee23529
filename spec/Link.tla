------------------------------- MODULE Link -------------------------------
(* PCIe data link layer and flow control as implemented by a simulated port:
   state of ONE port and the effect of each event on it.  A link is two ports
   (module LinkMC composes them; module LinkTrace replays recorded events).

   One operator per critical section of the implementation:
     credit gate, transmit of a TLP, transmit of a DLLP, reception of a TLP,
     reception of a flow-control / ACK DLLP, release of a receive buffer. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS HMod,     \* size of the header credit counters   (4096)
          DMod,     \* size of the data credit counters     (65536)
          SMod      \* size of the sequence number space    (4096)

Class == {"P", "NP", "CPL"}
Order == <<"P", "NP", "CPL">>

PortInit(init) ==
  [ init  |-> init,                                   \* own receive buffer: class -> <<hdr, data>>
    got   |-> {},                                     \* classes whose initial limits were captured
    fi2   |-> FALSE,                                  \* flow-control initialisation complete
    alloc |-> [c \in Class |-> <<0, 0>>],             \* peer's initial advertisement
    lim   |-> [c \in Class |-> <<0, 0>>],             \* peer's latest advertisement
    cons  |-> [c \in Class |-> <<0, 0>>],             \* consumed by transmitted TLPs
    grant |-> init,                                   \* advertised by this port
    rcvd  |-> [c \in Class |-> <<0, 0>>],             \* consumed by received TLPs
    ntx   |-> 0,                                      \* next sequence number to transmit
    ackd  |-> SMod - 1,                               \* last acknowledged by the peer
    nrx   |-> 0,                                      \* next sequence number expected
    nak   |-> FALSE,                                  \* NAK outstanding
    ini   |-> 0 ]                                     \* number of init DLLPs sent so far (cyclic)

Fi1(p) == p.got = Class

(* a mod-N counter "limit" is at or above "used" iff their distance is in the lower half *)
Fits(limit, used, mod) == ((limit - used) % mod) <= mod \div 2

InfTx(p, c, k) == p.alloc[c][k] = 0
InfRx(p, c, k) == p.init[c][k] = 0

HasCredit(p, c, d) ==
  /\ InfTx(p, c, 1) \/ Fits(p.lim[c][1], (p.cons[c][1] + 1) % HMod, HMod)
  /\ InfTx(p, c, 2) \/ Fits(p.lim[c][2], (p.cons[c][2] + d) % DMod, DMod)

Add(a, h, d, hinf, dinf) ==
  << IF hinf THEN a[1] ELSE (a[1] + h) % HMod, IF dinf THEN a[2] ELSE (a[2] + d) % DMod >>

(* transmit side ---------------------------------------------------------*)
CanSendTlp(p, c, d) == p.fi2 /\ HasCredit(p, c, d)

SentTlp(p, c, d) ==
  [p EXCEPT !.ntx = (@ + 1) % SMod,
            !.cons[c] = Add(@, 1, d, InfTx(p, c, 1), InfTx(p, c, 2))]

InitKind(p) == IF Fi1(p) THEN "I2" ELSE "I1"
InitClass(p) == Order[(p.ini % 3) + 1]

(* receive side ----------------------------------------------------------*)
RecvFc(p, kind, c, h, d) ==
  IF ~Fi1(p) THEN
     IF kind \in {"I1", "I2"}
     THEN [p EXCEPT !.got = @ \cup {c}, !.alloc[c] = <<h, d>>, !.lim[c] = <<h, d>>]
     ELSE p
  ELSE IF ~p.fi2 THEN
     IF kind \in {"I2", "U"} THEN [p EXCEPT !.fi2 = TRUE] ELSE p
  ELSE IF kind = "U" THEN [p EXCEPT !.lim[c] = <<h, d>>]
  ELSE p

TlpVerdict(p, seq) ==
  IF seq = p.nrx THEN "good"
  ELSE IF ((p.nrx - seq) % SMod) < SMod \div 2 THEN "dup"
  ELSE "gap"

RecvTlp(p, c, d, seq) ==
  CASE TlpVerdict(p, seq) = "good" ->
         [p EXCEPT !.nrx = (@ + 1) % SMod, !.nak = FALSE,
                   !.rcvd[c] = Add(@, 1, d, InfRx(p, c, 1), InfRx(p, c, 2))]
    [] TlpVerdict(p, seq) = "dup" -> p
    [] OTHER -> [p EXCEPT !.nak = TRUE]

(* no TLP is ever received for which this port has not granted credit *)
NoOverflow(p) ==
  \A c \in Class : /\ InfRx(p, c, 1) \/ Fits(p.grant[c][1], p.rcvd[c][1], HMod)
                   /\ InfRx(p, c, 2) \/ Fits(p.grant[c][2], p.rcvd[c][2], DMod)

AckFuture(p, seq) == ((p.ntx - 1 - seq) % SMod) > SMod \div 2
AckPast(p, seq)   == ((seq - p.ackd) % SMod) > SMod \div 2
RecvAck(p, seq) == IF AckFuture(p, seq) \/ AckPast(p, seq) THEN p ELSE [p EXCEPT !.ackd = seq]
Unacked(p) == (p.ntx - 1 - p.ackd) % SMod

Released(p, c, d) ==
  [p EXCEPT !.grant[c] = Add(@, 1, d, InfRx(p, c, 1), InfRx(p, c, 2))]
=============================================================================
