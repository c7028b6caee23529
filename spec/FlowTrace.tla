------------------------------ MODULE FlowTrace ------------------------------
(* Flows: per source, destination and credit class lossless, unaltered and in
   order.  A send that has not returned yet is concurrent with later ones; one
   that has returned comes before every send that starts afterwards.
   q   <<src, dst, class>> -> sequence of [d digest, s start, e return or 0] of
       TLPs sent and not yet received                                        *)
EXTENDS VF, Fabric

VARIABLES l, tp, hw, mp, rt, q
vars == <<l, tp, hw, mp, rt, q>>
Init == l = 1 /\ tp = <<>> /\ hw = <<>> /\ mp = <<>> /\ rt = <<>> /\ q = <<>>

Upd(t, h, m) == IF t = <<>> \/ h = <<>> \/ m = <<>> THEN <<>> ELSE Routes(t, h, m)
Dig(e) == <<e.hd, e.dg>>
Seen(x) == x = 0 \/ x \in rt.eps                          \* nodes whose TLPs are recorded
Flow(s, d, e) == <<s, d, Class(e)>>
Q(k) == IF k \in DOMAIN q THEN q[k] ELSE <<>>

SndTo(e) == LET D == Dest(rt, e) IN IF Seen(D) /\ D # e.f THEN D ELSE -1
Snd(e) == LET D == SndTo(e) k == Flow(e.f, D, e) IN
          IF D = -1 THEN q ELSE (k :> Append(Q(k), [d |-> Dig(e), s |-> l, e |-> 0])) @@ q

(* completions of unsupported requests are also sent by devices and bridges themselves; those senders are not recorded *)
Own(e) == ~(e.ty \in CplT /\ e.st # 0)
RcvKey(e) == Flow(Src(rt, e), e.f, e)
Idx(k, e) == {i \in DOMAIN Q(k) : Q(k)[i].d = Dig(e)}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Late(s, i) == \E j \in DOMAIN s : s[j].e # 0 /\ s[j].e < s[i].s
(* the root complex also receives what nothing claims; requests it forwards itself are its own *)
Skip(e) == ~Seen(Src(rt, e)) \/ Src(rt, e) = e.f \/ Dest(rt, e) = -1
OnRcv(e) ==
  IF Skip(e) \/ ~Own(e) THEN {}
  ELSE LET k == RcvKey(e) I == Idx(k, e) IN
       IF I # {} THEN Chk(~Late(Q(k), First(I)), "flow_reordered")
       ELSE IF \E k2 \in DOMAIN q : k2[1] = k[1] /\ Idx(k2, e) # {} THEN {"flow_misdelivered"}
       ELSE IF Q(k) = <<>> THEN {"flow_duplicated"} ELSE {"flow_altered_or_duplicated"}
Rcv(e) ==
  IF Skip(e) THEN q
  ELSE LET k == RcvKey(e) s == Q(k) I == Idx(k, e) IN
       IF I # {} THEN LET i == First(I) IN [q EXCEPT ![k] = [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]] ELSE q
Snt(e) == [k \in DOMAIN q |-> IF k[1] # e.f \/ ~\E i \in DOMAIN q[k] : q[k][i].d = Dig(e) /\ q[k][i].e = 0 THEN q[k]
                              ELSE [q[k] EXCEPT ![First({i \in DOMAIN q[k] : q[k][i].d = Dig(e) /\ q[k][i].e = 0})].e = l]]

Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "topo" -> tp' = e /\ hw' = <<>> /\ mp' = <<>> /\ rt' = <<>> /\ q' = <<>> /\ Report(l, {})
       [] e.ev = "hw" -> hw' = e /\ rt' = Upd(tp, e, mp) /\ UNCHANGED <<tp, mp, q>> /\ Report(l, {})
       [] e.ev = "map" -> mp' = e /\ rt' = Upd(tp, hw, e) /\ UNCHANGED <<tp, hw, q>> /\ Report(l, {})
       [] e.ev = "snd" /\ rt # <<>> -> q' = Snd(e) /\ UNCHANGED <<tp, hw, mp, rt>> /\ Report(l, {})
       [] e.ev = "snt" /\ rt # <<>> -> q' = Snt(e) /\ UNCHANGED <<tp, hw, mp, rt>> /\ Report(l, {})
       [] e.ev = "rcv" /\ rt # <<>> -> q' = Rcv(e) /\ UNCHANGED <<tp, hw, mp, rt>> /\ Report(l, OnRcv(e))
       [] e.ev = "end" -> UNCHANGED <<tp, hw, mp, rt, q>> /\ Report(l, Chk(\A k \in DOMAIN q : q[k] = <<>>, "flow_lost"))
       [] e.ev = "crash" -> UNCHANGED <<tp, hw, mp, rt, q>> /\ Report(l, {"crash_" \o e.why})
       [] OTHER -> UNCHANGED <<tp, hw, mp, rt, q>> /\ Report(l, {})
  /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
=============================================================================
