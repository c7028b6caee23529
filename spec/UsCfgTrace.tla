----------------------------- MODULE UsCfgTrace ------------------------------
(* Recordings of the management, status, flow control and interrupt interfaces
   of the UltraScale device models, next to configuration requests of the link
   partner and other traffic.
   Events: fn (one function and what it was made of), link; acc (a configuration
   register access, via the link or the management interface), mgmt_idle, int (a
   complete interrupt request), pend, st (status outputs), fc (flow control
   outputs), up, dn (TLPs leaving and reaching the device), rel (credits given
   back by the link partner), reset.                                          *)
EXTENDS ConfigBuild, UsCfg
VARIABLES l, fs, off, lk, cr
vars == <<l, fs, off, lk, cr>>
Zero == [k \in Kinds |-> 0]
Init == l = 1 /\ fs = << >> /\ off = << >> /\ lk = [fam |-> "u", bus |-> 0, rst |-> 1] /\ cr = [tx |-> Zero, rx |-> Zero, rel |-> Zero]

Off(e, ty) == IF \E c \in Range(e.caps) : c.ty = ty THEN (CHOOSE c \in Range(e.caps) : c.ty = ty).off ELSE -1
OnFn(e) ==
  LET sp == Build(e)
      o == [EXP |-> Off(e, "EXP"), MSI |-> Off(e, "MSI"), MSIX |-> Off(e, "MSIX")] IN
  /\ fs' = (IF e.f = 0 THEN <<sp>> ELSE Append(fs, sp)) /\ off' = (IF e.f = 0 THEN <<o>> ELSE Append(off, o)) /\ UNCHANGED <<lk, cr>>
  /\ Report(l, Chk((o.MSI >= 0) = (e.par.msi > 0) /\ (e.par.msi > 0 => MsiC(sp, o) = LgUp(e.par.msi)), "parameter_msi_vectors")
        \cup Chk((o.MSIX >= 0) = (e.par.msix = 1), "parameter_msix_enable")
        \cup (IF e.par.msix = 0 \/ o.MSIX < 0 THEN {} ELSE
              Chk(Fld(sp, o.MSIX, 16, 11) = e.par.size /\ Fld(sp, o.MSIX + 1, 0, 3) = e.par.tbir /\ Fld(sp, o.MSIX + 2, 0, 3) = e.par.pbir
                  /\ Fld(sp, o.MSIX + 1, 3, 27) = e.par.toff /\ Fld(sp, o.MSIX + 2, 3, 27) = e.par.poff, "parameter_msix_table"))
        \cup Chk(o.EXP >= 0, "no_pcie_capability"))
Lnk(sp, o) == [speed |-> Fld(sp, o.EXP + 4, 16, 4), width |-> Fld(sp, o.EXP + 4, 20, 6)]
OnLink(e) ==
  /\ lk' = [fam |-> e.fam, bus |-> e.bus, tx |-> e.tx, rx |-> e.rx, rst |-> 1]
  /\ cr' = [tx |-> Zero, rx |-> Zero, rel |-> Zero]
  /\ UNCHANGED <<fs, off>>
  /\ Report(l, Chk(\A k \in DOMAIN fs : 128 * 2 ^ Fld(fs[k], off[k].EXP + 1, 0, 3) = e.mps, "parameter_max_payload"))

Want(sp, r) == IF r \in DOMAIN sp THEN sp[r].v ELSE {}
OnAcc(e) ==
  LET here == e.f < Len(fs)
      sp == fs[e.f + 1] IN
  /\ fs' = IF e.w = 1 /\ here /\ e.r \in DOMAIN sp
           THEN LET o == off[e.f + 1]
                    s == [sp EXCEPT ![e.r].v = Write(@, Range(e.data), Range(e.en), sp[e.r].rw, sp[e.r].w1c)]
                IN [fs EXCEPT ![e.f + 1] = IF MsiPvm(s, o) /\ e.r \in {o.MSI, MaskReg(s, o)} THEN [s EXCEPT ![MaskReg(s, o) + 1].v = @ \ MsiReady(s, o)] ELSE s]
           ELSE fs
  /\ lk' = IF e.w = 1 /\ e.via = "link" THEN [lk EXCEPT !.bus = e.bus] ELSE lk
  /\ UNCHANGED <<off, cr>>
  /\ Report(l, IF here THEN Chk(e.st = 0, "access_status_" \o e.via) \cup (IF e.w = 0 THEN Chk(Range(e.data) = Want(sp, e.r), "read_value_" \o e.via) ELSE {})
                       ELSE Chk(e.st = 1, "access_status_no_function"))

OnInt(e) ==
  LET sp == fs[e.f + 1]
      o == off[e.f + 1]
      msi == e.k = "msi"
      masked == msi /\ MsiMasked(sp, o, Range(e.vec))
      good == IF msi THEN MsiGood(sp, o, Range(e.vec)) ELSE MsixGood(sp, o)
      m == e.out[1]
      num == CHOOSE k \in Range(e.vec) : TRUE
      a == IF msi THEN [i \in 1..8 |-> IF i <= 4 THEN (IF 23 \in sp[o.MSI].v THEN Fld(sp, o.MSI + 2, 8 * (4 - i), 8) ELSE 0) ELSE Fld(sp, o.MSI + 1, 8 * (8 - i), 8)] ELSE e.a
      d == IF msi THEN [i \in 1..4 |-> Num({b - 8 * (i - 1) : b \in {b \in MsiBits(sp, o, num) : 8 * (i - 1) <= b /\ b < 8 * i}})] ELSE e.d
  IN
  /\ fs' = IF masked THEN [fs EXCEPT ![e.f + 1][MaskReg(sp, o) + 1].v = @ \cup Range(e.vec)] ELSE fs
  /\ Report(l, IF masked THEN Chk(e.out = << >>, "msi_sent_masked")
            ELSE IF good
            THEN Chk(Len(e.out) = 1, e.k \o "_messages")
                 \cup Chk(e.n = IF msi THEN <<1, 0, 0, 0>> ELSE <<0, 0, 1, 0>>, e.k \o "_sent")
                 \cup (IF Len(e.out) = 0 THEN {} ELSE
                       Chk(m.a = a, e.k \o "_address") \cup Chk(m.d = d, e.k \o "_data") \cup Chk(m.attr = e.attr, e.k \o "_attr")
                       \cup Chk(m.t = (IF SubSeq(a, 1, 4) = <<0, 0, 0, 0>> THEN "MEM_WRITE" ELSE "MEM_WRITE_64") /\ m.n = 1 /\ m.fbe = 15 /\ m.lbe = 0 /\ m.tc = 0, e.k \o "_message")
                       \cup Chk(m.rid = lk.bus * 256 + e.f, e.k \o "_requester"))
            ELSE Chk(e.out = << >>, e.k \o "_sent_disabled") \cup Chk(e.n = IF msi THEN <<0, 1, 0, 0>> ELSE <<0, 0, 0, 1>>, e.k \o "_fail"))

Status(n, sel) ==
  CASE n = "cfg_phy_link_down" -> 1 - lk.rst
    [] n = "user_lnk_up" -> lk.rst
    [] n = "user_reset" -> 1 - lk.rst
    [] n = "cfg_negotiated_width" -> Width(lk.fam, Lnk(fs[1], off[1]).width)
    [] n = "cfg_current_speed" -> Speed(lk.fam, Lnk(fs[1], off[1]).speed)
    [] n = "cfg_max_payload" -> LET v == Fld(fs[1], off[1].EXP + 2, 5, 3) IN IF lk.fam = "u" THEN v ELSE v % 4
    [] n = "cfg_max_read_req" -> Fld(fs[1], off[1].EXP + 2, 12, 3)
    [] n = "cfg_function_status" -> FunctionStatus(fs)
    [] n = "cfg_rcb_status" -> RcbStatus(fs, off)
    [] n = "cfg_interrupt_msi_enable" -> MsiEnable(fs, off)
    [] n = "cfg_interrupt_msi_mmenable" -> MsiMmEnable(fs, off)
    [] n = "cfg_interrupt_msix_enable" -> MsixEnable(fs, off)
    [] n = "cfg_interrupt_msix_mask" -> MsixMaskAll(fs, off)
    [] n = "cfg_bus_number" -> lk.bus
MaskBits(sel) == IF sel >= Len(fs) \/ off[sel + 1].MSI < 0 THEN {}
  ELSE LET sp == fs[sel + 1]
           o == off[sel + 1].MSI IN IF 24 \in sp[o].v THEN sp[o + (IF 23 \in sp[o].v THEN 4 ELSE 3)].v ELSE {}
OnSt(e) == Report(l, UNION {IF n = "cfg_interrupt_msi_data" THEN Chk(Range(e.o[n]) = MaskBits(e.sel), n)
                            ELSE Chk(e.o[n] = Status(n, e.sel), n) : n \in Range(e.names)})

OnFc(e) ==
  LET w == CASE e.sel = 0 /\ lk.fam = "u" -> Avail(lk.rx, cr.rx, cr.rx)
             [] e.sel = 1 /\ lk.fam = "u" -> Limit(lk.rx, cr.rx)
             [] e.sel = 2 -> Consumed(lk.rx, cr.rx)
             [] e.sel = 4 -> Avail(lk.tx, cr.tx, cr.rel)
             [] e.sel = 5 -> Limit(lk.tx, cr.rel)
             [] e.sel = 6 -> Consumed(lk.tx, cr.tx)
             [] OTHER -> e.v
  IN Report(l, Chk(\A k \in Kinds : e.v[k] = w[k], "cfg_fc_" \o ToString(e.sel)))

Pend(e) ==
  LET sp == fs[e.f + 1]
      o == off[e.f + 1].MSI
      r == o + (IF 23 \in sp[o].v THEN 5 ELSE 4) IN
  fs' = IF o >= 0 /\ 24 \in sp[o].v THEN [fs EXCEPT ![e.f + 1][r].v = Range(e.v)] ELSE fs

Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "fn" -> OnFn(e)
       [] e.ev = "link" -> OnLink(e)
       [] e.ev = "acc" -> OnAcc(e)
       [] e.ev = "mgmt_idle" -> UNCHANGED <<fs, off, lk, cr>> /\ Report(l, Chk(e.done = 0, "mgmt_done"))
       [] e.ev = "int" -> OnInt(e) /\ UNCHANGED <<off, lk, cr>>
       [] e.ev = "pend" -> Pend(e) /\ UNCHANGED <<off, lk, cr>> /\ Report(l, {})
       [] e.ev = "st" -> OnSt(e) /\ UNCHANGED <<fs, off, lk, cr>>
       [] e.ev = "fc" -> OnFc(e) /\ UNCHANGED <<fs, off, lk, cr>>
       [] e.ev = "up" -> cr' = [cr EXCEPT !.tx = Add(@, Use(e.c, e.n))] /\ UNCHANGED <<fs, off, lk>> /\ Report(l, {})
       [] e.ev = "dn" -> cr' = [cr EXCEPT !.rx = Add(@, Use(e.c, e.n))] /\ UNCHANGED <<fs, off, lk>> /\ Report(l, {})
       [] e.ev = "rel" -> cr' = [cr EXCEPT !.rel = Add(@, Use(e.c, e.n))] /\ UNCHANGED <<fs, off, lk>> /\ Report(l, {})
       [] e.ev = "reset" -> lk' = [lk EXCEPT !.rst = e.v] /\ UNCHANGED <<fs, off, cr>> /\ Report(l, {})
       [] e.ev = "crash" -> UNCHANGED <<fs, off, lk, cr>> /\ Report(l, {"crash_" \o e.why})
       [] OTHER -> UNCHANGED <<fs, off, lk, cr>> /\ Report(l, {})
  /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
=============================================================================
