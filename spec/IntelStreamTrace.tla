-------------------------- MODULE IntelStreamTrace ---------------------------
(* Clock by clock recordings of a Stratix 10 or P-Tile stream driven or taken by
   the library.
   Events: cfg, send (a frame handed to the source), clk (r: ready, rst: reset,
   v: the valid segments), recv (a frame the sink delivered), end.
   segment: i, sop, eop, emp, d (dwords <<hi, lo>>), p (parity per dword), bar,
   fn, vfa, vn, err, h (header half words), hp, x (prefix half words), xp, ab.
   frame: d, p, bar, fn, vf (-1: none), err, h, hp, x, xp, ab; tlp: made from a TLP
   whose header is hdr and whose payload dwords are pay.                       *)
EXTENDS VF, IntelStream
VARIABLES l, cfg, sent, part, bus, hist, prev, low
vars == <<l, cfg, sent, part, bus, hist, prev, low>>
\* prev: what was presented and not accepted (L = 0), the last reset value; low: TLPs that wait in the sink since the last clock
Has1(n) == n \in Range(cfg.has)
Null == [d |-> << >>, p |-> << >>, bar |-> 0, fn |-> 0, vf |-> -1, err |-> 0, h |-> << >>, hp |-> 0, x |-> << >>, xp |-> 0, ab |-> 0, need |-> 0]
Inline == cfg.fam = "s"
Zeros(p) == [i \in DOMAIN p |-> 0]
\* what the signals of this interface can carry of a frame
Norm(f) == [d |-> f.d, p |-> IF Has1("par") THEN f.p ELSE Zeros(f.p), bar |-> IF Has1("bar_range") THEN f.bar ELSE 0, fn |-> IF Has1("func_num") THEN f.fn ELSE 0,
            vf |-> IF ~Has1("vf_active") THEN -1 ELSE IF f.vf >= 0 /\ ~Has1("vf_num") THEN 0 ELSE f.vf,
            err |-> IF Has1("err") THEN f.err ELSE 0, ab |-> IF Has1("tlp_abort") THEN f.ab ELSE 0,
            h |-> f.h, x |-> f.x, hp |-> IF Has1("hdr_par") THEN f.hp ELSE 0, xp |-> IF Has1("tlp_prfx_par") THEN f.xp ELSE 0]
Strip(t) == [k \in DOMAIN t \ {"need"} |-> t[k]]
Frame(e) == [d |-> e.d, p |-> e.p, bar |-> e.bar, fn |-> e.fn, vf |-> e.vf, err |-> e.err, ab |-> e.ab, h |-> e.h, x |-> e.x, hp |-> e.hp, xp |-> e.xp]
Fields == <<"d", "p", "bar", "fn", "vf", "err", "ab", "h", "x", "hp", "xp">>
Diff(a, b, pre) == {pre \o Fields[i] : i \in {i \in DOMAIN Fields : a[Fields[i]] # b[Fields[i]]}}
\* a frame made from a TLP
FromTlp(e) ==
  LET want == IF Inline THEN e.hdr \o e.pay ELSE e.pay IN
  Chk(e.d = want, "tlp_data") \cup Chk(e.p = [i \in DOMAIN e.d |-> DwPar(e.d[i])], "tlp_parity")
  \cup (IF Inline THEN {} ELSE LET h == e.hdr \o (IF Len(e.hdr) = 3 THEN <<<<0, 0>>>> ELSE << >>)
                                   hw == [i \in 1..8 |-> h[(i + 1) \div 2][2 - (i % 2)]]
                               IN Chk(e.h = hw, "tlp_header") \cup Chk(e.hp = HdrPar(hw, 1), "tlp_header_parity") \cup Chk(e.x = <<0, 0>> /\ e.xp = 0, "tlp_prefix"))
HdrDws(h) == LET n == IF (h[1] \div 8192) % 2 = 1 THEN 4 ELSE 3 IN [i \in 1..n |-> <<h[2 * i - 1], h[2 * i]>>]
Whole(e) == IF Inline THEN e.d ELSE HdrDws(e.h) \o e.d
ParGood(e) == /\ Len(e.p) = Len(e.d) /\ \A i \in DOMAIN e.d : e.p[i] = DwPar(e.d[i])
              /\ Inline \/ (e.hp = HdrPar(e.h, 1) /\ e.xp = HdrPar(e.x, 1))
Start(s) == [Null EXCEPT !.bar = s.bar, !.fn = s.fn, !.vf = IF s.vfa = 1 THEN s.vn ELSE -1, !.err = s.err, !.h = s.h, !.hp = s.hp, !.x = s.x, !.xp = s.xp, !.ab = s.ab,
              !.need = Need(Inline, IF Inline THEN s.d[1] ELSE <<s.h[1], s.h[2]>>)]
\* segments in turn: <<TLP in progress, complete TLPs, clauses>>
RECURSIVE Walk(_, _, _, _)
Walk(v, p, done, bad) ==
  IF v = << >> THEN <<p, done, bad>>
  ELSE LET s == v[1] IN
       IF (p = << >>) # (s.sop = 1) THEN <<p, done, bad \cup {"marker_sop"}>>
       ELSE LET t == IF s.sop = 1 THEN Start(s) ELSE p[1]
                k == Take(cfg.lanes, Len(t.d), t.need)
                t2 == [t EXCEPT !.d = @ \o SubSeq(s.d, 1, k), !.p = @ \o SubSeq(s.p, 1, k)]
                end == Len(t2.d) = t.need
                b2 == bad \cup Chk((s.eop = 1) = end, "marker_eop") \cup (IF end /\ k > 0 /\ Has1("empty") THEN Chk(s.emp = cfg.lanes - k, "marker_empty") ELSE {})
            IN IF (s.eop = 1) # end THEN <<p, done, b2>>
               ELSE IF end THEN Walk(Tail(v), << >>, Append(done, Strip(t2)), b2) ELSE Walk(Tail(v), <<t2>>, done, b2)

Clk(e) ==
  LET pres == e.v # << >>
      taken == pres /\ (cfg.L > 0 \/ e.r = 1) /\ e.rst = 0
      w == IF taken THEN Walk(e.v, part, << >>, {}) ELSE <<part, << >>, {}>>
      done == w[2]
      n == Len(done)
  IN /\ hist' = Push(cfg.L, hist, e.r)
     /\ part' = w[1] /\ bus' = bus \o done /\ sent' = SubSeq(sent, n + 1, Len(sent))
     /\ prev' = [rst |-> e.rst, held |-> IF cfg.L = 0 /\ pres /\ ~taken /\ e.rst = 0 THEN <<e.v>> ELSE << >>]
     /\ low' = Len(bus)
     /\ UNCHANGED cfg
     /\ Report(l, w[3]
          \cup Chk(~pres \/ MayPresent(cfg.L, hist), "ready_latency")
          \cup (IF prev.held = << >> THEN {} ELSE Chk(e.v = prev.held[1], IF pres THEN "beat_changed" ELSE "beat_withdrawn"))
          \cup Chk(prev.rst = 1 => ~pres /\ e.r = 0, "reset")
          \cup Chk(cfg.limit > 0 /\ Len(bus) > cfg.limit /\ low > cfg.limit => e.r = 0, "ready_when_full")
          \cup Chk(n <= Len(sent), "bus_unexpected")
          \cup UNION {Diff(done[i], Norm(sent[i]), "bus_") : i \in 1..Min(n, Len(sent))})
Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "cfg" -> /\ cfg' = e /\ sent' = << >> /\ part' = << >> /\ bus' = << >> /\ hist' = << >> /\ prev' = [rst |-> 0, held |-> << >>] /\ low' = 0 /\ Report(l, {})
       [] e.ev = "send" -> sent' = Append(sent, Frame(e)) /\ UNCHANGED <<cfg, part, bus, hist, prev, low>> /\ Report(l, IF e.tlp = 1 THEN FromTlp(e) ELSE {})
       [] e.ev = "clk" -> Clk(e)
       [] e.ev = "recv" ->
            /\ bus' = (IF bus = << >> THEN bus ELSE Tail(bus)) /\ low' = (IF low = 0 THEN 0 ELSE low - 1)
            /\ UNCHANGED <<cfg, sent, part, hist, prev>>
            /\ Report(l, (IF bus = << >> THEN {"recv_unexpected"} ELSE Diff(Frame(e), bus[1], "recv_"))
                 \cup (IF e.back # << >> THEN Chk(e.back = Whole(e), "to_tlp") ELSE {}) \cup Chk((e.ok = 1) = ParGood(e), "check_parity"))
       [] e.ev = "end" -> UNCHANGED <<cfg, sent, part, bus, hist, prev, low>>
            /\ Report(l, Chk(sent = << >> /\ part = << >>, "not_sent") \cup Chk(bus = << >>, "not_received"))
       [] e.ev = "idle" -> UNCHANGED <<cfg, sent, part, bus, hist, prev, low>> /\ Report(l, Chk(e.src = 1 /\ e.snk = 1, "not_idle"))
       [] e.ev = "crash" -> UNCHANGED <<cfg, sent, part, bus, hist, prev, low>> /\ Report(l, {"crash_" \o e.why})
       [] OTHER -> UNCHANGED <<cfg, sent, part, bus, hist, prev, low>> /\ Report(l, {})
  /\ l' = l + 1
Init == l = 1 /\ cfg = << >> /\ sent = << >> /\ part = << >> /\ bus = << >> /\ hist = << >> /\ prev = [rst |-> 0, held |-> << >>] /\ low = 0
TraceSpec == Init /\ [][Next]_vars
=============================================================================
