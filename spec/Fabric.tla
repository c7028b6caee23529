------------------------------- MODULE Fabric -------------------------------
(* The hierarchy after enumeration as a routing structure: who claims which
   address or ID, and what lies below each link.  tp / hw / mp are the recorded
   "topo", "hw" and "map" records.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Hier, Tlp

Rng(s) == {s[i] : i \in DOMAIN s}
HwOf(hw, f) == LET i == CHOOSE i \in DOMAIN hw.fns : hw.fns[i].f = f IN hw.fns[i]

(* claimed address ranges: regions of endpoints and host, BARs of bridges, the host's MSI region *)
BBase(h, b) == IF b.x = 1 THEN <<h.bars[b.i + 2][1], h.bars[b.i + 2][2], h.bars[b.i + 1][1], h.bars[b.i + 1][2] - (h.bars[b.i + 1][2] % 16)>>
               ELSE <<0, 0, h.bars[b.i + 1][1], h.bars[b.i + 1][2] - (h.bars[b.i + 1][2] % (IF b.io = 1 THEN 4 ELSE 16))>>
Items(tp, hw, mp) ==
  {[f |-> x.f, io |-> x.io, base |-> x.base, last |-> x.last] : x \in Rng(mp.regs)}
  \cup {[f |-> 0, io |-> 0, base |-> <<0, 0, 32768, 0>>, last |-> <<0, 0, 32768, 15>>]}
  \cup UNION {{[f |-> f, io |-> b.io, base |-> BBase(HwOf(hw, f), b), last |-> APlus(BBase(HwOf(hw, f), b), AMinus(b.s, <<0, 0, 0, 1>>))] : b \in Rng(Fn(tp, f).bars)} : f \in Bridges(tp)}

Routes(tp, hw, mp) ==
  [items |-> Items(tp, hw, mp),
   idof |-> [f \in Nodes(tp) |-> HwOf(hw, f).id],
   nodes |-> Nodes(tp), eps |-> Eps(tp),
   up |-> [f \in Nodes(tp) |-> Up(tp, f)],
   below |-> [l \in 1..Len(tp.links) |-> Subtree(tp, tp.links[l].up) \ {tp.links[l].up}],
   lup |-> [l \in 1..Len(tp.links) |-> tp.links[l].up], ldn |-> [l \in 1..Len(tp.links) |-> tp.links[l].dn],
   kind |-> [f \in Nodes(tp) |-> Fn(tp, f).k],
   win |-> [f \in Bridges(tp) |-> LET h == HwOf(hw, f) IN [io |-> <<h.iob, h.iol>>, m |-> <<h.mb, h.ml>>, p |-> <<h.pb, h.pl>>, sec |-> h.sec, sub |-> h.sub]],
   cmd |-> [f \in Nodes(tp) |-> HwOf(hw, f).cmd],
   enb |-> [f \in {0} \cup Nodes(tp) |-> {b \in Bridges(tp) : b \in Above(tp, f)}]]

NodeOfId(rt, id) == IF id = 0 THEN 0 ELSE LET s == {f \in rt.nodes : rt.idof[f] = id} IN IF s = {} THEN -1 ELSE CHOOSE f \in s : TRUE

Hits(rt, e) == {x \in rt.items : x.io = (IF e.ty \in IoT THEN 1 ELSE 0) /\ AIn(e.a, x.base, x.last)}
(* decoding enabled at f for this request: command register bit 0 (I/O) or 1 (memory) *)
Decodes(rt, f, e) == f = 0 \/ Bit(rt.cmd[f], IF e.ty \in IoT THEN 0 ELSE 1)

(* the destination a TLP names; -1: nothing claims it *)
Dest(rt, e) ==
  IF e.ty \in CfgT THEN (LET n == NodeOfId(rt, e.cid) IN IF n = 0 THEN -1 ELSE n)
  ELSE IF e.ty \in CplT THEN NodeOfId(rt, e.rid)
  ELSE LET h == {x \in Hits(rt, e) : Decodes(rt, x.f, e)} IN IF h = {} THEN -1 ELSE (CHOOSE x \in h : TRUE).f
Src(rt, e) == NodeOfId(rt, IF e.ty \in CplT THEN e.cid ELSE e.rid)

(* the windows and bus range of bridge b cover what e addresses *)
Covers(rt, b, e) ==
  LET w == rt.win[b] IN
  IF e.ty \in CfgT THEN w.sec <= e.cid \div 256 /\ e.cid \div 256 <= w.sub
  ELSE IF e.ty \in CplT THEN w.sec <= e.rid \div 256 /\ e.rid \div 256 <= w.sub
  ELSE IF e.ty \in IoT THEN AIn(e.a, w.io[1], w.io[2])
  ELSE AIn(e.a, w.m[1], w.m[2]) \/ AIn(e.a, w.p[1], w.p[2])
=============================================================================
