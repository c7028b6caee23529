---------------------------- MODULE UsStreamTrace ----------------------------
(* Clock by clock recordings of a stream interface driven by the library.
   Events: cfg (interface, widths, and which side is the library's), send (a TLP
   handed to the source), clk (the signals at a rising clock edge), recv (a TLP
   delivered by the sink), end.
   clk: v, r, and with v: d (dwords <<hi, lo>>), k (tkeep), l (tlast), u (tuser
   as 16-bit words, least significant first).                               *)
EXTENDS VF, UsStream, UsLayout, Bitwise
VARIABLES l, cfg, lay, sent, part, bus, prev
vars == <<l, cfg, lay, sent, part, bus, prev>>
\* sent: TLPs sent and not seen on the bus; bus: TLPs complete on the bus and not received; part: the TLP in progress (<< >> or <<tlp>>)
\* prev: the beat that was presented and not accepted
B(u, i) == (u[(i \div 16) + 1] \div (2 ^ (i % 16))) % 2
RECURSIVE F(_, _, _)
F(u, lo, n) == IF n = 0 THEN 0 ELSE B(u, lo) + 2 * F(u, lo + 1, n - 1)
RECURSIVE Ones(_)
Ones(b) == IF b = 0 THEN 0 ELSE (b % 2) + Ones(b \div 2)
OddPar == [b \in 0..255 |-> 1 - (Ones(b) % 2)]
DwPar(d) == OddPar[d[2] % 256] + 2 * OddPar[d[2] \div 256] + 4 * OddPar[d[1] % 256] + 8 * OddPar[d[1] \div 256]

N == cfg.w \div 32
Straddle == cfg.segs > 1
RECURSIVE KeepTop(_, _)
KeepTop(k, i) == IF k = 0 THEN i - 1 ELSE KeepTop(k \div 2, i + 1)
\* markers as the beat states them
MarkS(e) == IF lay.sop < 0 THEN 0 ELSE F(e.u, lay.sop, lay.nsop)
NMarkS(e) == Ones(MarkS(e))
SopLane(e, i, busy) == IF lay.sopp >= 0 THEN 4 * F(e.u, lay.sopp + 2 * i, 2) ELSE IF i = 0 THEN (IF busy THEN 4 ELSE 0) ELSE 4
MarkE(e) == IF lay.eop < 0 THEN << >> ELSE [i \in 1..lay.neop |-> IF cfg.w = 512 THEN B(e.u, lay.eop + i - 1) ELSE B(e.u, lay.eop + 4 * (i - 1))]
EopLane(e, i) == F(e.u, lay.eopp + lay.eopstep * i, IF cfg.w = 512 THEN 4 ELSE 3)
\* markers are used in order: the second only with the first
Dense(bits) == \A i \in 1..(Len(bits) - 1) : bits[i + 1] = 1 => bits[i] = 1
SumSeq(s) == Cardinality({i \in DOMAIN s : s[i] = 1})
SBits(e) == [i \in 1..lay.nsop |-> B(e.u, lay.sop + i - 1)]
Busy == part # << >>
Sops(e) == IF Straddle THEN [i \in 1..SumSeq(SBits(e)) |-> SopLane(e, i - 1, Busy)] ELSE IF Busy THEN << >> ELSE <<0>>
Eops(e) == IF Straddle THEN [i \in 1..SumSeq(MarkE(e)) |-> EopLane(e, i - 1)] ELSE IF e.l = 1 THEN <<KeepTop(e.k, 0)>> ELSE << >>
\* without straddling: keep and last, and the markers where the interface has them
KeepOK(e) == /\ e.k # 0 /\ e.k = (2 ^ (KeepTop(e.k, 0) + 1)) - 1
             /\ e.l = 0 => e.k = (2 ^ N) - 1
MarkersOK(e) ==
  IF Straddle THEN Dense(SBits(e)) /\ Dense(MarkE(e)) /\ WellMarked(N, cfg.segs, Busy, Sops(e), Eops(e))
  ELSE /\ KeepOK(e)
       /\ lay.sop >= 0 => SumSeq(SBits(e)) = (IF Busy THEN 0 ELSE 1) /\ Dense(SBits(e)) /\ (~Busy /\ lay.sopp >= 0 => F(e.u, lay.sopp, 2) = 0)
       /\ lay.eop >= 0 => SumSeq(MarkE(e)) = e.l /\ Dense(MarkE(e)) /\ (e.l = 1 => EopLane(e, 0) = KeepTop(e.k, 0))
ParOK(e, lo, hi) == lay.par >= 0 => \A k \in lo..hi : F(e.u, lay.par + 4 * k, 4) = DwPar(e.d[k + 1])

New == [d |-> << >>, be |-> << >>, par |-> << >>, fbe |-> 0, lbe |-> 0, disc |-> 0, seq |-> 0, share |-> FALSE]
Lanes(e, lo, hi, pos, step) == [i \in 1..(hi - lo + 1) |-> F(e.u, pos + step * (lo + i - 1), 4)]
Piece(e, t0, x, k, shared) ==      \* k: how many TLPs started in this beat before
  LET t1 == IF x.start THEN [New EXCEPT !.fbe = IF lay.fbe < 0 THEN 0 ELSE F(e.u, lay.fbe + 4 * k, 4), !.lbe = IF lay.lbe < 0 THEN 0 ELSE F(e.u, lay.lbe + 4 * k, 4),
                                        !.seq = IF lay.seq < 0 THEN 0 ELSE F(e.u, lay.seq + lay.seqstep * k, lay.seqn) + (IF lay.seqhi < 0 THEN 0 ELSE 16 * F(e.u, lay.seqhi, 2))]
             ELSE t0
  IN [t1 EXCEPT !.d = @ \o SubSeq(e.d, x.lo + 1, x.hi + 1), !.be = IF lay.be < 0 THEN @ ELSE @ \o Lanes(e, x.lo, x.hi, lay.be, 4),
                !.par = @ \o Lanes(e, x.lo, x.hi, lay.par, 4), !.disc = IF B(e.u, lay.disc) = 1 THEN 1 ELSE @, !.share = @ \/ shared]
RECURSIVE Walk(_, _, _, _, _, _)
Walk(e, pc, p, k, done, shared) ==
  IF pc = << >> THEN <<p, done>>
  ELSE LET x == pc[1]
           t == Piece(e, IF p = << >> THEN New ELSE p[1], x, k, shared)
           nk == IF x.start THEN k + 1 ELSE k
       IN IF x.end THEN Walk(e, Tail(pc), << >>, nk, Append(done, t), shared) ELSE Walk(e, Tail(pc), <<t>>, nk, done, shared)

SeqVal(s) == IF lay.seqhi < 0 /\ cfg.i = "rq" /\ cfg.w # 512 THEN s % 16 ELSE s
\* does the TLP on the bus carry the one that was sent?
Carries(t, s) == /\ t.d = s.d /\ t.be = s.be
                 /\ t.par = s.par
                 /\ lay.fbe >= 0 => t.fbe = s.fbe /\ t.lbe = s.lbe
                 /\ lay.seq >= 0 => t.seq = SeqVal(s.seq)
                 /\ s.disc = 1 => t.disc = 1
                 /\ s.disc = 0 /\ ~t.share => t.disc = 0
Got(t, r) == t.d = r.d /\ t.be = r.be /\ t.par = r.par /\ t.fbe = r.fbe /\ t.lbe = r.lbe /\ t.disc = r.disc /\ t.seq = r.seq
Beat(e) == <<e.d, e.k, e.l, e.u>>

Clk(e) ==
  IF e.v = 0
  THEN /\ prev' = << >> /\ UNCHANGED <<cfg, lay, sent, part, bus>>
       /\ Report(l, Chk(prev = << >>, "beat_withdrawn"))
  ELSE LET held == Chk(prev = << >> \/ prev[1] = Beat(e), "beat_changed") IN
       IF e.r = 0
       THEN prev' = <<Beat(e)>> /\ UNCHANGED <<cfg, lay, sent, part, bus>> /\ Report(l, held)
       ELSE IF ~MarkersOK(e)
       THEN prev' = << >> /\ UNCHANGED <<cfg, lay, sent, bus, part>> /\ Report(l, held \cup {"markers"})
       ELSE LET r == Pieces(N, Busy, Sops(e), Eops(e))
                w == Walk(e, r.pieces, part, 0, << >>, Len(r.pieces) > 1)
                done == w[2]
                n == Len(done)
            IN /\ prev' = << >> /\ part' = w[1] /\ bus' = bus \o done
               /\ sent' = SubSeq(sent, n + 1, Len(sent)) /\ UNCHANGED <<cfg, lay>>
               /\ Report(l, held
                    \cup Chk(n <= Len(sent) /\ \A i \in 1..Min(n, Len(sent)) : done[i].d = sent[i].d, "bus_data")
                    \cup Chk(\A i \in 1..Min(n, Len(sent)) : done[i].d = sent[i].d => Carries(done[i], sent[i]), "bus_sideband")
                    \cup Chk(\A i \in DOMAIN r.pieces : ParOK(e, r.pieces[i].lo, r.pieces[i].hi), "bus_parity"))
Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "cfg" -> /\ cfg' = e /\ lay' = Layout(e.i, e.w, e.uw) /\ sent' = << >> /\ part' = << >> /\ bus' = << >> /\ prev' = << >> /\ Report(l, {})
       [] e.ev = "send" -> sent' = Append(sent, e) /\ UNCHANGED <<cfg, lay, part, bus, prev>> /\ Report(l, {})
       [] e.ev = "clk" -> Clk(e)
       [] e.ev = "recv" ->
            /\ bus' = IF bus = << >> THEN bus ELSE Tail(bus)
            /\ UNCHANGED <<cfg, lay, sent, part, prev>>
            /\ Report(l, IF bus = << >> THEN {"recv_unexpected"} ELSE Chk(Got(bus[1], e), "recv_frame"))
       [] e.ev = "end" -> UNCHANGED <<cfg, lay, sent, part, bus, prev>>
            /\ Report(l, Chk(sent = << >> /\ part = << >>, "not_sent") \cup Chk(bus = << >>, "not_received"))
       [] e.ev = "crash" -> UNCHANGED <<cfg, lay, sent, part, bus, prev>> /\ Report(l, {"crash_" \o e.why})
       [] OTHER -> UNCHANGED <<cfg, lay, sent, part, bus, prev>> /\ Report(l, {})
  /\ l' = l + 1
Init == l = 1 /\ cfg = << >> /\ lay = None /\ sent = << >> /\ part = << >> /\ bus = << >> /\ prev = << >>
TraceSpec == Init /\ [][Next]_vars
=============================================================================
