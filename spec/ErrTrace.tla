------------------------------ MODULE ErrTrace ------------------------------
(* Status registers of a recorded run against ErrStat.
   topo   the hierarchy                       par    parity error response settings (command, bridge control)
   snd    TLP leaves function f (0: host)     rcv    the same TLP reaches function f (hd, dg: digests)
   tobr   function f is about to send such a completion to a bridge: received there on one of its sides
   bsnd   a bridge sends a completion to function `to` on its own account
   stat   status bits the host reads          clr    bits the host writes 1 to                                *)
EXTENDS VF, ErrStat, Hier
VARIABLES l, tp, ab, per, bper, bits, air
vars == <<l, tp, ab, per, bper, bits, air>>
Init == l = 1 /\ tp = <<>> /\ ab = <<>> /\ per = <<>> /\ bper = <<>> /\ bits = <<>> /\ air = <<>>
AllIds(t) == {0} \cup Nodes(t)
KindOf(e) == IF e.ty \in {"Cpl", "CplD"} THEN "cpl" ELSE IF e.ty \in {"MWr", "MWr64", "IOWr", "CfgWr0", "CfgWr1"} THEN "wr" ELSE "rd"
TlpOf(e) == [kind |-> KindOf(e), st |-> IF KindOf(e) = "cpl" THEN e.st ELSE 0, ep |-> e.ep = 1]
Dig(e) == <<e.hd, e.dg>>
Quiet(t) == ~t.ep /\ ~(t.kind = "cpl" /\ t.st \in {1, 4})
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Find(d) == {i \in DOMAIN air : air[i].k = d}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
BitsOf(e) == {<<"pri", x>> : x \in Range(e.pri)} \cup {<<"sec", x>> : x \in Range(e.sec)}

Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "topo" ->
            /\ tp' = [fns |-> e.fns]
            /\ ab' = [x \in AllIds(e) |-> IF x = 0 THEN {} ELSE Above(e, x) \ {0}]
            /\ per' = [x \in Nodes(e) |-> FALSE] /\ bper' = [x \in Nodes(e) |-> FALSE]
            /\ bits' = [x \in Nodes(e) |-> None] /\ air' = <<>> /\ Report(l, {})
       [] e.ev = "par" ->
            /\ per' = [per EXCEPT ![e.f] = e.per = 1] /\ bper' = [bper EXCEPT ![e.f] = e.bper = 1]
            /\ UNCHANGED <<tp, ab, bits, air>> /\ Report(l, {})
       [] e.ev = "snd" ->      \* the sender notices at once; bridges and the receiver when it arrives
            /\ LET t == TlpOf(e) IN
               /\ bits' = IF Quiet(t) \/ e.f = 0 THEN bits ELSE [bits EXCEPT ![e.f] = Or(@, Sends(t, per[e.f]))]
               /\ air' = IF Quiet(t) THEN air ELSE Append(air, [k |-> Dig(e), f |-> e.f, b |-> FALSE])
            /\ UNCHANGED <<tp, ab, per, bper>> /\ Report(l, {})
       [] e.ev = "bsnd" ->
            /\ bits' = [bits EXCEPT ![e.f] = Or(@, BridgeSends(TlpOf(e), e.f \in ab[e.to], per[e.f], bper[e.f]))]
            /\ air' = IF Quiet(TlpOf(e)) THEN air ELSE Append(air, [k |-> Dig(e), f |-> e.f, b |-> TRUE])
            /\ UNCHANGED <<tp, ab, per, bper>> /\ Report(l, {})
       [] e.ev = "tobr" ->
            /\ bits' = [bits EXCEPT ![e.to] = Or(@, May({"pri", "sec"} \X (IF e.st = 4 THEN {"rta"} ELSE IF e.st = 1 THEN {"rma"} ELSE {})))]
            /\ UNCHANGED <<tp, ab, per, bper, air>> /\ Report(l, {})
       [] e.ev = "rcv" ->
            /\ LET t == TlpOf(e) s == Find(Dig(e)) IN
               IF Quiet(t) THEN UNCHANGED <<bits, air>>
               ELSE IF s = {}       \* made on the way (a bridge refused the request): only its receiver is concerned
               THEN /\ bits' = IF e.f = 0 THEN bits ELSE [bits EXCEPT ![e.f] = Or(@, Takes(t, per[e.f]))]
                    /\ UNCHANGED air
               ELSE LET i == MinOf(s) src == air[MinOf(s)].f IN
                    /\ bits' = [x \in DOMAIN bits |-> IF x = src THEN bits[x]
                                ELSE IF x = e.f /\ air[i].b THEN Or(bits[x], May(Takes(t, per[x]).hi))     \* nobody waits for it
                                ELSE Or(bits[x], Effect(x, src, e.f, t, ab, per, bper))]
                    /\ air' = DropAt(air, i)
            /\ UNCHANGED <<tp, ab, per, bper>> /\ Report(l, {})
       [] e.ev = "stat" ->
            LET b == bits[e.f] v == BitsOf(e) IN
            /\ bits' = [bits EXCEPT ![e.f] = Both(v)]
            /\ UNCHANGED <<tp, ab, per, bper, air>>
            /\ Report(l, Chk(b.lo \subseteq v, "error_not_recorded") \cup Chk(v \subseteq b.hi, "error_invented"))
       [] e.ev = "clr" ->
            /\ bits' = [bits EXCEPT ![e.f] = Minus(@, BitsOf(e))] /\ UNCHANGED <<tp, ab, per, bper, air>> /\ Report(l, {})
       [] e.ev = "crash" -> UNCHANGED <<tp, ab, per, bper, bits, air>> /\ Report(l, {"crash_" \o e.why})
       [] OTHER -> UNCHANGED <<tp, ab, per, bper, bits, air>> /\ Report(l, {})
  /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
=============================================================================
