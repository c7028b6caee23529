---------------------------- MODULE IntelDevTrace ----------------------------
(* Recordings of the Stratix 10 and P-Tile device models between a link partner
   and user logic.
   Events: fn, link (what the device is made of), reset0; dn (a TLP of the link
   partner; inj = 1: handed to the device directly), rx (a frame received by the
   user); tx (a frame given by the user), up (a TLP reaching the link partner),
   rel (credits given back); int, ack (MSI request interface); tl (snapshot of
   the configuration output), cr (credit outputs), reset; settle.             *)
EXTENDS ConfigBuild, IntelDev, UsModel
VARIABLES l, fs, off, bars, lk, cr, rxq, txq, own, msi
vars == <<l, fs, off, bars, lk, cr, rxq, txq, own, msi>>
(* rxq: frames due to the user; txq: TLPs due on the link; own: completions the device owes by itself; msi: messages due *)
Zero == [k \in Kinds |-> 0]
Init == /\ l = 1 /\ fs = << >> /\ off = << >> /\ bars = << >> /\ lk = << >> /\ cr = [tx |-> Zero, rel |-> Zero]
        /\ rxq = << >> /\ txq = << >> /\ own = {} /\ msi = << >>
Same(a, b, S) == \A x \in S : a[x] = b[x]
Off(e, ty) == IF \E c \in Range(e.caps) : c.ty = ty THEN (CHOOSE c \in Range(e.caps) : c.ty = ty).off ELSE -1
OnFn(e) ==
  LET sp == Build(e)
      o == [PM |-> Off(e, "PM"), EXP |-> Off(e, "EXP"), MSI |-> Off(e, "MSI"), MSIX |-> Off(e, "MSIX"), AER |-> Off(e, "AER")] IN
  /\ fs' = (IF e.f = 0 THEN <<sp>> ELSE Append(fs, sp)) /\ off' = (IF e.f = 0 THEN <<o>> ELSE Append(off, o))
  /\ bars' = (IF e.f = 0 THEN <<e.bars>> ELSE Append(bars, e.bars))
  /\ rxq' = << >> /\ txq' = << >> /\ own' = {} /\ msi' = << >> /\ cr' = [tx |-> Zero, rel |-> Zero] /\ lk' = [bus |-> 0, h |-> 0, d |-> 0, rh |-> 0, rd |-> 0, m |-> 0]
  /\ Report(l, Chk((o.MSI >= 0) = (e.par.msi > 0) /\ (e.par.msi > 0 => MsiC(sp, o) = LgUp(e.par.msi)), "parameter_msi_vectors")
        \cup Chk((o.MSIX >= 0) = (e.par.msix = 1), "parameter_msix_enable")
        \cup (IF e.par.msix = 0 \/ o.MSIX < 0 THEN {} ELSE
              Chk(Fld(sp, o.MSIX, 16, 11) = e.par.size /\ Fld(sp, o.MSIX + 1, 0, 3) = e.par.tbir /\ Fld(sp, o.MSIX + 2, 0, 3) = e.par.pbir
                  /\ Fld(sp, o.MSIX + 1, 3, 27) = e.par.toff /\ Fld(sp, o.MSIX + 2, 3, 27) = e.par.poff, "parameter_msix_table"))
        \cup Chk(o.EXP >= 0, "no_pcie_capability"))
OnLink(e) ==
  /\ lk' = [fam |-> e.fam, bus |-> 0, h |-> 0, d |-> 0, rh |-> 0, rd |-> 0, m |-> 0, tx |-> e.tx, port |-> e.port, opt |-> e.opt, kind |-> e.kind]
  /\ UNCHANGED <<fs, off, bars, cr, rxq, txq, own, msi>>
  /\ Report(l, Chk(\A k \in DOMAIN fs : 128 * 2 ^ Fld(fs[k], off[k].EXP + 1, 0, 3) = e.mps, "parameter_max_payload")
        \cup Chk(\A k \in DOMAIN fs : Fld(fs[k], off[k].EXP + 1, 5, 1) = e.ext, "parameter_extended_tag")
        \cup Chk(Len(fs) = e.pf, "parameter_functions"))

(* ------------------------------------------------------------ from the link *)
ByteBits(d) == UNION {{8 * (i - 1) + b : b \in {b \in 0..7 : (d[i] \div (2 ^ b)) % 2 = 1}} : i \in 1..4}
BeSet(be) == {k \in 0..3 : (be \div (2 ^ k)) % 2 = 1}
AddrOf(sp, b) == [j \in 1..8 |-> IF j > 4 THEN Fld(sp, 4 + b.i, 8 * (8 - j), 8) ELSE IF b.ext THEN Fld(sp, 5 + b.i, 8 * (4 - j), 8) ELSE 0]
Fns == [k \in DOMAIN fs |-> [bars |-> [j \in DOMAIN bars[k] |-> LET b == bars[k][j] IN
         [i |-> b.i, s |-> b.lg, io |-> IF b.io THEN 1 ELSE 0, a |-> AddrOf(fs[k], b), on |-> IF Bit(fs[k], 1, IF b.io THEN 0 ELSE 1) THEN 1 ELSE 0]]]]
Owe(e, st, w) == [tag |-> e.tag, rid |-> e.rid, tc |-> e.tc, attr |-> e.attr, st |-> st, want |-> w]
CplD(n) == (n + 3) \div 4
(* completions waiting for the user: lk.h headers, lk.d units of data *)
RECURSIVE SumH(_), SumD(_)
SumH(q) == IF q = << >> THEN 0 ELSE (IF Head(q).r.c = "CPL" THEN 1 ELSE 0) + SumH(Tail(q))
SumD(q) == IF q = << >> THEN 0 ELSE (IF Head(q).r.c = "CPL" THEN CplD(Head(q).r.n) ELSE 0) + SumD(Tail(q))
Left(k) == LET x == rxq[k] IN [lk EXCEPT !.h = @ - SumH(SubSeq(rxq, 1, k)), !.d = @ - SumD(SubSeq(rxq, 1, k)),
                                       !.rh = @ + SumH(<<x>>), !.rd = @ + SumD(<<x>>)]
(* the completions delivered from the arrival of x up to x were in the buffer together, apart from a few already on their way to the stream *)
Fits(x) == x.r.c # "CPL" \/ LET lim == RxLimit(lk.fam, lk.port) IN
           lk.rh + 1 - x.rh <= lim.h + 12 /\ lk.rd + CplD(x.r.n) - x.rd <= lim.d + 12 * lk.m
OnDn(e) ==
  /\ UNCHANGED <<off, bars, txq, msi, cr>>
  /\ Report(l, {})
  /\ IF e.t \in Cfg0T
     THEN LET k == e.cid % 8
              bus == e.cid \div 256
              here == k < Len(fs) /\ (e.cid \div 8) % 32 = 0
              r == (e.a[7] * 256 + e.a[8]) \div 4
              in == here /\ r \in DOMAIN fs[k + 1]
          IN /\ own' = own \cup {Owe(e, IF here THEN 0 ELSE 1, IF e.t = "CFG_READ_0" /\ here THEN <<IF in THEN fs[k + 1][r].v ELSE {}>> ELSE << >>)}
             /\ fs' = IF e.t = "CFG_WRITE_0" /\ in THEN [fs EXCEPT ![k + 1][r].v = Write(@, ByteBits(e.d), BeSet(e.fbe), fs[k + 1][r].rw, fs[k + 1][r].w1c)] ELSE fs
             /\ lk' = [lk EXCEPT !.bus = bus] /\ UNCHANGED rxq
     ELSE IF e.t \in Cfg1T THEN own' = own \cup {Owe(e, 1, << >>)} /\ UNCHANGED <<fs, lk, rxq>>
     ELSE IF e.c = "CPL"
     THEN /\ UNCHANGED <<fs, own>>
          /\ lk' = IF e.rid \div 256 = lk.bus /\ e.rid % 256 < Len(fs) THEN [lk EXCEPT !.h = @ + 1, !.d = @ + CplD(e.n), !.m = Max(@, CplD(e.n))] ELSE lk
          /\ rxq' = IF e.rid \div 256 = lk.bus /\ e.rid % 256 < Len(fs)
                    THEN LET lim == RxLimit(lk.fam, lk.port)
                             h == lk.h + 1
                             d == lk.d + CplD(e.n)
                         IN Append(rxq, [r |-> e, fn |-> e.rid % 256, bar |-> -1, may |-> h > lim.h \/ d > lim.d, rh |-> lk.rh, rd |-> lk.rd])
                    ELSE rxq
     ELSE LET io == e.t \in IoRT
              h == BarHit(Fns, e.a, IF io THEN 1 ELSE 0) IN
          /\ UNCHANGED <<fs, lk>>
          /\ IF h = << >> THEN own' = (IF e.c = "P" THEN own ELSE own \cup {Owe(e, 1, << >>)}) /\ UNCHANGED rxq
             ELSE UNCHANGED own /\ rxq' = Append(rxq, [r |-> e, fn |-> h[1], bar |-> IF io THEN 6 ELSE h[2], may |-> FALSE, rh |-> 0, rd |-> 0])
Fields(c) == IF c = "CPL" THEN {"t", "c", "tag", "rid", "cid", "tc", "attr", "ep", "n", "st", "bc", "la", "d"}
             ELSE {"t", "c", "tag", "rid", "tc", "attr", "at", "ep", "n", "fbe", "lbe", "a", "d"}
Match(x, e) == x.r.c = e.c /\ x.r.tag = e.tag /\ x.r.d = e.d
OnRx(e) ==
  /\ UNCHANGED <<fs, off, bars, cr, txq, own, msi>>
  /\ LET S == IF rxq # << >> /\ Match(rxq[1], e) THEN {1} ELSE {i \in DOMAIN rxq : Match(rxq[i], e) /\ \A j \in 1..(i - 1) : rxq[j].may}
         k == IF rxq = << >> THEN 0 ELSE IF S = {} THEN 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
     IN IF k = 0 THEN UNCHANGED <<rxq, lk>> /\ Report(l, {"rx_unexpected"})
        ELSE LET x == rxq[k] IN
             /\ rxq' = SubSeq(rxq, k + 1, Len(rxq)) /\ lk' = Left(k)
             /\ Report(l, Chk(Same(x.r, e, Fields(x.r.c)), "rx_" \o x.r.c) \cup Chk(lk.opt = 0 \/ e.fn = x.fn, "rx_function") \cup Chk(x.bar < 0 \/ e.bar = x.bar, "rx_bar")
                          \cup Chk(e.vf = -1 /\ e.err = 0 /\ (lk.opt = 0 \/ e.par = 1), "rx_sideband") \cup Chk(Fits(x), "rx_overflow"))

(* ------------------------------------------------------------ to the link *)
MsgOf(sp, o, num, f, tc) ==
  LET a == [i \in 1..8 |-> IF i <= 4 THEN (IF 23 \in sp[o.MSI].v THEN Fld(sp, o.MSI + 2, 8 * (4 - i), 8) ELSE 0) ELSE Fld(sp, o.MSI + 1, 8 * (8 - i), 8)]
      d == [i \in 1..4 |-> Num({b - 8 * (i - 1) : b \in {b \in MsiBits(sp, o, num) : 8 * (i - 1) <= b /\ b < 8 * i}})]
  IN [t |-> IF SubSeq(a, 1, 4) = <<0, 0, 0, 0>> THEN "MEM_WRITE" ELSE "MEM_WRITE_64", a |-> a, d |-> d, n |-> 1, fbe |-> 15, lbe |-> 0, tc |-> tc, rid |-> 256 * lk.bus + f]
OnInt(e) ==
  LET here == e.f < Len(fs)
      good == here /\ MsiGood(fs[e.f + 1], off[e.f + 1], {e.num}) IN
  /\ msi' = IF good THEN Append(msi, MsgOf(fs[e.f + 1], off[e.f + 1], e.num, e.f, e.tc)) ELSE msi
  /\ lk' = [lk EXCEPT !.kind = IF good THEN "good" ELSE "bad"]
  /\ UNCHANGED <<fs, off, bars, cr, rxq, txq, own>> /\ Report(l, {})
OnAck(e) ==
  /\ msi' = << >> /\ UNCHANGED <<fs, off, bars, lk, cr, rxq, txq, own>>
  /\ Report(l, Chk(msi = << >>, "msi_not_sent") \cup Chk(IF lk.kind = "good" THEN e.n = 1 ELSE e.n <= 1, "msi_acknowledge"))
IsMsi(e) == msi # << >> /\ e.c = "P" /\ e.a = msi[1].a /\ e.d = msi[1].d
OnUp(e) ==
  /\ cr' = [cr EXCEPT !.tx = Add(@, Use(e.c, Len(e.d)))]
  /\ UNCHANGED <<fs, off, bars, lk, rxq>>
  /\ LET S == {x \in own : e.c = "CPL" /\ x.tag = e.tag /\ x.rid = e.rid} IN
     IF S # {}
     THEN LET x == CHOOSE y \in S : TRUE IN
          /\ own' = own \ {x} /\ UNCHANGED <<txq, msi>>
          /\ Report(l, Chk(e.st = x.st /\ e.tc = x.tc /\ e.attr = x.attr /\ (x.want = << >> => e.n = 0 /\ e.t = "CPL"), "own_completion")
                       \cup (IF x.want = << >> THEN {} ELSE Chk(e.t = "CPL_DATA" /\ e.n = 1 /\ Len(e.d) = 4 /\ ByteBits(e.d) = x.want[1], "configuration_read_value")))
     ELSE IF IsMsi(e)
     THEN /\ msi' = Tail(msi) /\ UNCHANGED <<txq, own>>
          /\ Report(l, Chk(Same(msi[1], e, DOMAIN msi[1]), "msi_message"))
     ELSE IF txq = << >> THEN UNCHANGED <<txq, own, msi>> /\ Report(l, {"tx_unexpected"})
     ELSE /\ txq' = Tail(txq) /\ UNCHANGED <<own, msi>>
          /\ Report(l, Chk(Same(txq[1], e, Fields(txq[1].c)) /\ (e.t \in Cfg0T \cup Cfg1T => e.cid = txq[1].cid), "tx_" \o txq[1].c))

(* ------------------------------------------------------------ outputs *)
OnTl(e) ==
  LET got == {<<x[1], x[2]>> : x \in Range(e.v)}
      kind == IF lk.fam = "t" THEN "t" ELSE IF lk.port = 1 THEN "l" ELSE "h" IN
  Report(l, Chk(got = {<<k - 1, w - 1>> : k \in DOMAIN fs, w \in DOMAIN Words(kind, off[1])}, "tl_cfg_words")
       \cup UNION {IF x[1] < Len(fs) /\ x[2] < Len(Words(kind, off[1]))
                   THEN LET v == Void(kind, off[x[1] + 1], x[2] + 1) IN
                        Chk(Range(x[3]) \ v = Word(kind, fs[x[1] + 1], off[x[1] + 1], lk.bus, x[2] + 1) \ v, "tl_cfg_" \o ToString(x[2])) ELSE {} : x \in Range(e.v)})
OnCr(e) ==
  LET w == IF lk.fam = "t" THEN WideLimit(lk.tx, cr.rel) ELSE Avail(lk.tx, cr.tx, cr.rel)
      KS == IF lk.fam = "s" /\ lk.port = 0 THEN {1, 2, 3, 5} ELSE Kinds
  IN Report(l, Chk(\A k \in KS : e.v[k] = w[k], "tx_credits"))
Settle(e) ==
  /\ rxq' = (IF e.p.rx = 0 THEN << >> ELSE rxq) /\ lk' = (IF e.p.rx = 0 THEN [lk EXCEPT !.h = 0, !.d = 0] ELSE lk)
  /\ UNCHANGED <<fs, off, bars, cr, txq, own, msi>>
  /\ Report(l, Chk(e.p.rx # 0 \/ \A i \in DOMAIN rxq : rxq[i].may, "rx_lost") \cup Chk(e.p.tx # 0 \/ e.keep = 1 \/ txq = << >>, "tx_lost") \cup Chk(own = {}, "own_completion_missing"))

Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "fn" -> OnFn(e)
       [] e.ev = "link" -> OnLink(e)
       [] e.ev = "dn" -> OnDn(e)
       [] e.ev = "rx" -> OnRx(e)
       [] e.ev = "tx" -> txq' = Append(txq, e) /\ UNCHANGED <<fs, off, bars, lk, cr, rxq, own, msi>> /\ Report(l, {})
       [] e.ev = "up" -> OnUp(e)
       [] e.ev = "rel" -> cr' = [cr EXCEPT !.rel = Add(@, Use(e.c, e.n))] /\ UNCHANGED <<fs, off, bars, lk, rxq, txq, own, msi>> /\ Report(l, {})
       [] e.ev = "int" -> OnInt(e)
       [] e.ev = "ack" -> OnAck(e)
       [] e.ev = "tl" -> OnTl(e) /\ UNCHANGED <<fs, off, bars, lk, cr, rxq, txq, own, msi>>
       [] e.ev = "cr" -> OnCr(e) /\ UNCHANGED <<fs, off, bars, lk, cr, rxq, txq, own, msi>>
       [] e.ev = "reset" -> Report(l, Chk(\A i \in DOMAIN e.o : e.o[i] = 1 - e.v, "reset_status")) /\ UNCHANGED <<fs, off, bars, lk, cr, rxq, txq, own, msi>>
       [] e.ev = "settle" -> Settle(e)
       [] e.ev = "crash" -> Report(l, {"crash_" \o e.why}) /\ UNCHANGED <<fs, off, bars, lk, cr, rxq, txq, own, msi>>
       [] OTHER -> Report(l, {}) /\ UNCHANGED <<fs, off, bars, lk, cr, rxq, txq, own, msi>>
  /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
=============================================================================
