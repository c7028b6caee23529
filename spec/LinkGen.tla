------------------------------- MODULE LinkGen -------------------------------
(* Generates behaviours of the environment of ONE port (its peer and its
   application) from Link.tla; each behaviour is replayed into a real port
   (harness/drivers/link.py, entry peer) and the resulting wire trace is
   checked against LinkTrace.  Run with TLC -simulate. *)
EXTENDS Link, TLC, Json

CONSTANTS Depth, Inits, Tag

VARIABLES d,        \* the port under test
          r,        \* the peer, as a port
          todo,     \* submitted by the application, not yet sent: sequence of <<class, data credits>>
          buf,      \* delivered, unreleased
          sentn,    \* TLPs sent by the peer
          hist
vars == <<d, r, todo, buf, sentn, hist>>

Sizes == {0, 1, 2, 7, 64, 256}
SizesOf(c) == IF c = "NP" THEN {0, 1} ELSE Sizes
Waits == {0, 1, 5, 40, 700, 4000, 35000}

Init == /\ \E i0, i1 \in Inits : d = PortInit(i0) /\ r = PortInit(i1)
        /\ todo = <<>> /\ buf = <<>> /\ sentn = 0
        /\ hist = <<[a |-> "init", dut |-> <<d.init["P"], d.init["NP"], d.init["CPL"]>>,
                     peer |-> <<r.init["P"], r.init["NP"], r.init["CPL"]>>]>>

Do(rec) == hist' = Append(hist, rec @@ [w |-> RandomElement(Waits)])

\* everything the port can send is sent at once
RECURSIVE Flush(_, _)
Flush(p, q) ==
  LET ok == {i \in DOMAIN q : CanSendTlp(p, q[i][1], q[i][2]) /\ \A j \in 1..(i-1) : q[j][1] # q[i][1]} IN
  IF ok = {} THEN <<p, q>>
  ELSE LET i == CHOOSE x \in ok : \A y \in ok : x <= y IN
       Flush(SentTlp(p, q[i][1], q[i][2]), SubSeq(q, 1, i-1) \o SubSeq(q, i+1, Len(q)))

SetDut(p) == LET f == Flush(p, todo) IN d' = f[1] /\ todo' = f[2]

PInit == /\ ~d.fi2
         /\ \E c \in Class, k \in {"I1", "I2"} :
              /\ SetDut(RecvFc(d, k, c, r.init[c][1], r.init[c][2]))
              /\ Do([a |-> "fc", k |-> k, c |-> c, h |-> r.init[c][1], d |-> r.init[c][2]])
         /\ UNCHANGED <<r, buf, sentn>>
\* update DLLPs before the handshake is over carry values that must not be used
PEarly == /\ ~Fi1(d)
          /\ \E c \in Class : Do([a |-> "fc", k |-> "U", c |-> c, h |-> 1, d |-> 1])
          /\ UNCHANGED <<d, r, todo, buf, sentn>>
Grant(c) == IF c = "NP" THEN {<<1, 0>>, <<1, 1>>, <<0, 0>>} ELSE {<<1, 0>>, <<1, 256>>, <<2, 3>>, <<0, 1>>, <<0, 0>>, <<5, 300>>}
\* the peer never advertises more than it ever received plus its buffer
PUpd == /\ d.fi2
        /\ \E c \in Class : \E g \in Grant(c) :
             LET n == Add(r.grant[c], g[1], g[2], InfRx(r, c, 1), InfRx(r, c, 2)) IN
             /\ InfRx(r, c, 1) \/ ((n[1] - d.cons[c][1]) % HMod) <= 2047
             /\ InfRx(r, c, 2) \/ ((n[2] - d.cons[c][2]) % DMod) <= 32767
             /\ r' = [r EXCEPT !.grant[c] = n]
             /\ SetDut(RecvFc(d, "U", c, n[1], n[2]))
             /\ Do([a |-> "upd", c |-> c, h |-> g[1], d |-> g[2]])
        /\ UNCHANGED <<buf, sentn>>
Sub == /\ Len(todo) < 12
       /\ \E c \in Class : \E s \in SizesOf(c) :
            LET f == Flush(d, Append(todo, <<c, s>>)) IN
            /\ d' = f[1] /\ todo' = f[2] /\ Do([a |-> "sub", c |-> c, s |-> s])
       /\ UNCHANGED <<r, buf, sentn>>
PTlp == /\ d.fi2
        /\ \E c \in Class : \E s \in SizesOf(c) :
             /\ InfRx(d, c, 1) \/ Fits(d.grant[c][1], (d.rcvd[c][1] + 1) % HMod, HMod)
             /\ InfRx(d, c, 2) \/ Fits(d.grant[c][2], (d.rcvd[c][2] + s) % DMod, DMod)
             /\ d' = RecvTlp(d, c, s, d.nrx) /\ buf' = Append(buf, <<c, s>>) /\ sentn' = sentn + 1
             /\ Do([a |-> "tlp", c |-> c, s |-> s])
        /\ UNCHANGED <<r, todo>>
PDup == /\ sentn > 0
        /\ \E k \in {1, 2, 3, 50, 2046, 2047} : Do([a |-> "dup", k |-> k])
        /\ UNCHANGED <<d, r, todo, buf, sentn>>
PGap == /\ sentn > 0
        /\ \E k \in {1, 2, 100, 2000, 2047} : Do([a |-> "gap", k |-> k]) /\ d' = [d EXCEPT !.nak = TRUE]
        /\ UNCHANGED <<r, todo, buf, sentn>>
PAck == /\ d.fi2 /\ \E k \in {0, 1, 2, 5} : Do([a |-> "ack", k |-> k])            \* all but the last k sent so far
        /\ UNCHANGED <<d, r, todo, buf, sentn>>
PBadAck == /\ d.fi2 /\ \E k \in {1, 2, 3, 1000, 2040} : Do([a |-> "badack", k |-> k, fut |-> RandomElement(BOOLEAN)])
           /\ UNCHANGED <<d, r, todo, buf, sentn>>
Rel == /\ buf # <<>>
       /\ \E i \in DOMAIN buf :
            /\ d' = Released(d, buf[i][1], buf[i][2])
            /\ buf' = SubSeq(buf, 1, i-1) \o SubSeq(buf, i+1, Len(buf))
            /\ Do([a |-> "rel", i |-> i, twice |-> RandomElement(BOOLEAN)])
       /\ UNCHANGED <<r, todo, sentn>>

Stop == /\ Len(hist) = Depth /\ Do([a |-> "end"]) /\ UNCHANGED <<d, r, todo, buf, sentn>>
Next == \/ Stop
        \/ /\ Len(hist) < Depth
           /\ (PInit \/ PEarly \/ PUpd \/ Sub \/ PTlp \/ PDup \/ PGap \/ PAck \/ PBadAck \/ Rel)
Spec == Init /\ [][Next]_vars

Emit == Len(hist) # Depth + 1 \/ PrintT("GEN " \o ToJson(hist))
\* the environment respects the port's flow control, so the port's buffers can never overflow
Safe == NoOverflow(d)

IA == [P |-> <<1, 256>>, NP |-> <<1, 1>>, CPL |-> <<1, 256>>]
IB == [P |-> <<3, 300>>, NP |-> <<2, 2>>, CPL |-> <<2, 260>>]
IC == [P |-> <<0, 0>>, NP |-> <<0, 0>>, CPL |-> <<0, 0>>]
ID == [P |-> <<0, 256>>, NP |-> <<4, 0>>, CPL |-> <<3, 0>>]
IE == [P |-> <<2000, 32767>>, NP |-> <<2047, 5>>, CPL |-> <<64, 1024>>]
AllInits == {IA, IB, IC, ID, IE}
=============================================================================
