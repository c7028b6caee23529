------------------------------ MODULE WireTrace ------------------------------
(* Packets packed and parsed by the real code.
   Events: tlp (fields, bytes, fields parsed back, size figures, copies),
   raw (bytes that were parsed and packed again), chk (validity verdict),
   be (byte enable helpers), bes (byte counts of given byte enables),
   dllp, crc (checksum verdict on given bytes), desc (descriptor frames).    *)
EXTENDS VF, Wire
VARIABLES l
AllFields == (DOMAIN Zero) \cup {"t"}
Same(a, b, S) == \A x \in S : a[x] = b[x]
Norm(f) == [x \in AllFields |-> Parse(Wire(f))[x]]
TlpChk(e) ==
  LET f == e.f IN
  Chk(e.bytes = Wire(f), "pack_layout")
  \cup Chk(e.hdr = Header(f), "pack_header")
  \cup Chk(Same(e.u, f, AllFields), "unpack_fields")
  \cup Chk(e.same = 1 /\ e.diff = 0, "unpack_equal")
  \cup Chk(e.copied = 1 /\ Same(e.cf, f, AllFields) /\ e.mut = 0, "copy")
  \cup Chk(e.blind = << >>, "equality")
  \cup Chk(e.size = <<HdrLen(f.t), HdrLen(f.t) \div 4, Len(f.data), Len(f.data) \div 4, HdrLen(f.t) + Len(f.data), (HdrLen(f.t) + Len(f.data)) \div 4,
                      HdrLen(f.t) + Len(f.data) + 8, DataCredits(f)>>, "size_figures")
  \cup Chk(e.cls = FcClass(f.t) /\ e.hasdata = (IF HasData(f.t) THEN 1 ELSE 0), "class")

BeChk(e) ==
  LET a == AddrLow([addr |-> e.a])
      n == e.n
      z == n = 0
      pad == a % 4
      body == [i \in 1..(4 * RangeLen(a, n)) |-> IF i > pad /\ i <= pad + n THEN e.d[i - pad] ELSE 0]
  IN Chk(e.addr = [e.a EXCEPT ![8] = @ - (@ % 4)], "be_address")
     \cup Chk(e.len = RangeLen(a, n), "be_length")
     \cup Chk(e.fbe = RangeFbe(a, n) /\ e.lbe = RangeLbe(a, n), "be_enables")
     \cup Chk(e.bc = (IF z THEN 1 ELSE n) /\ e.la = (IF z THEN (a % 128) - (a % 4) ELSE a % 128), "be_count")
     \cup Chk(e.has = 1 => e.data = body, "be_data")
BesChk(e) == Chk(e.bc = ByteCount(e.len, e.fbe, e.lbe), "be_count") \cup Chk(e.la = (e.a - (e.a % 4)) + FirstOff(e.fbe), "be_lower_address")
DFields(t) == {"t"} \cup (IF t \in {"ACK", "NAK"} THEN {"seq"} ELSE IF t = "DATA_LINK_FEATURE" THEN {"fs", "fa"}
                         ELSE IF t \in FcKinds THEN {"vc", "hs", "h", "ds", "d"} ELSE {})
FcOf(t) == IF t \in {"INIT_FC1_P", "INIT_FC2_P", "UPDATE_FC_P"} THEN "P" ELSE IF t \in {"INIT_FC1_NP", "INIT_FC2_NP", "UPDATE_FC_NP"} THEN "NP"
           ELSE IF t \in FcKinds THEN "CPL" ELSE ""
DllpChk(e) ==
  Chk(e.bytes = DllpBytes(e.f), "dllp_layout") \cup Chk(e.crc = DllpWire(e.f), "dllp_crc")
  \cup Chk(Same(e.u, e.f, DFields(e.f.t)), "dllp_unpack") \cup Chk(e.same = 1, "dllp_equal") \cup Chk(e.blind = << >>, "dllp_equality")
  \cup Chk(e.cls = FcOf(e.f.t), "dllp_class")
DescChk(e) ==
  LET fr == Frame(e.k, e.f) IN
  Chk(e.frame = fr, "descriptor")
  \cup Chk(e.be = ByteEn(e.k, e.f), "frame_byte_enables")
  \cup Chk(e.par = [i \in DOMAIN fr |-> DwPar(fr[i])], "frame_parity")
  \cup Chk(e.side = (IF e.k \in {"cq", "rq"} THEN <<e.f.fbe, e.f.lbe>> ELSE <<0, 0>>) \o <<e.f.disc, IF e.k = "rq" THEN e.f.seqn ELSE 0>>, "frame_sideband")
  \cup Chk(Same(e.u, [e.f EXCEPT !.t = DescKind(e.f), !.tag = @ % 256], Carried(e.k) \ {"tag"}) /\ e.u.tag = e.f.tag % 256, "descriptor_unpack")
  \cup Chk(e.k = "cq" => e.u.cid = e.f.cid % 8, "descriptor_function")
  \cup Chk(e.badpar = 1, "parity_check") \cup Chk(e.same = 1, "descriptor_copy")
Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "tlp" -> Report(l, TlpChk(e))
       [] e.ev = "raw" -> Report(l, Chk(e.u = [x \in AllFields |-> Parse(e.bytes)[x]], "unpack_fields") \cup Chk(e.re = e.bytes, "repack"))
       [] e.ev = "chk" -> Report(l, Chk(e.ok = (IF Valid(e.f, e.n) THEN 1 ELSE 0), "validity"))
       [] e.ev = "be" -> Report(l, BeChk(e))
       [] e.ev = "bes" -> Report(l, BesChk(e))
       [] e.ev = "dllp" -> Report(l, DllpChk(e))
       [] e.ev = "crc" -> Report(l, Chk(e.ok = (IF CrcOK(e.bytes) THEN 1 ELSE 0), "dllp_checksum"))
       [] e.ev = "desc" -> Report(l, DescChk(e))
       [] e.ev = "crash" -> Report(l, {"crash_" \o e.why})
       [] OTHER -> Report(l, {})
  /\ l' = l + 1
Init == l = 1
TraceSpec == Init /\ [][Next]_l
=============================================================================
