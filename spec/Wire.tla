-------------------------------- MODULE Wire --------------------------------
(* The packet formats: what the fields of a TLP and of a DLLP mean as bytes on
   the wire (PCI Express Base Specification, chapters 2.2 and 3.5), and what a
   TLP is as a descriptor and payload on the four UltraScale(+) interfaces
   (PG156/PG213).  Addresses are sequences of bytes, most significant first,
   because TLC integers have 32 bits.                                        *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC

Kinds ==
  [MEM_READ |-> <<0, 0>>, MEM_READ_64 |-> <<1, 0>>, MEM_READ_LOCKED |-> <<0, 1>>, MEM_READ_LOCKED_64 |-> <<1, 1>>,
   MEM_WRITE |-> <<2, 0>>, MEM_WRITE_64 |-> <<3, 0>>, IO_READ |-> <<0, 2>>, IO_WRITE |-> <<2, 2>>,
   CFG_READ_0 |-> <<0, 4>>, CFG_WRITE_0 |-> <<2, 4>>, CFG_READ_1 |-> <<0, 5>>, CFG_WRITE_1 |-> <<2, 5>>,
   CPL |-> <<0, 10>>, CPL_DATA |-> <<2, 10>>, CPL_LOCKED |-> <<0, 11>>, CPL_LOCKED_DATA |-> <<2, 11>>,
   FETCH_ADD |-> <<2, 12>>, FETCH_ADD_64 |-> <<3, 12>>, SWAP |-> <<2, 13>>, SWAP_64 |-> <<3, 13>>,
   CAS |-> <<2, 14>>, CAS_64 |-> <<3, 14>>]
Names == DOMAIN Kinds
Fmt(t) == Kinds[t][1]
Typ(t) == Kinds[t][2]
HasData(t) == Fmt(t) \in {2, 3}
Long(t) == Fmt(t) \in {1, 3}
IsCpl(t) == Typ(t) \in {10, 11}
IsCfg(t) == Typ(t) \in {4, 5}
IsIo(t) == Typ(t) = 2
IsMem(t) == Typ(t) \in {0, 1}
IsAtomic(t) == Typ(t) \in {12, 13, 14}
FcClass(t) == IF IsCpl(t) THEN "CPL" ELSE IF t \in {"MEM_WRITE", "MEM_WRITE_64"} THEN "P" ELSE "NP"
NameOf(fmt, typ) == CHOOSE t \in Names : Kinds[t] = <<fmt, typ>>

Bit(v, i) == (v \div (2 ^ i)) % 2
Fld(v, lo, n) == (v \div (2 ^ lo)) % (2 ^ n)
Hi(v) == v \div 256
Lo(v) == v % 256

-----------------------------------------------------------------------------
(* TLP headers *)
HdrLen(t) == IF Long(t) THEN 16 ELSE 12
Dw0(f) ==
  << Fmt(f.t) * 32 + Typ(f.t),
     Bit(f.tag, 9) * 128 + f.tc * 16 + Bit(f.tag, 8) * 8 + Bit(f.attr, 2) * 4 + f.ln * 2 + f.th,
     f.td * 128 + f.ep * 64 + (f.attr % 4) * 16 + f.at * 4 + Fld(f.length, 8, 2),
     Lo(f.length) >>
Header(f) ==
  Dw0(f) \o
  (IF IsCpl(f.t)
   THEN << Hi(f.cid), Lo(f.cid), f.status * 32 + f.bcm * 16 + Fld(f.bc, 8, 4), Lo(f.bc),
           Hi(f.rid), Lo(f.rid), f.tag % 256, f.la >>
   ELSE << Hi(f.rid), Lo(f.rid), f.tag % 256, f.lbe * 16 + f.fbe >> \o
        (IF IsCfg(f.t) THEN << Hi(f.cid), Lo(f.cid), f.addr[7] % 16, f.addr[8] - (f.addr[8] % 4) >>
         ELSE (IF Long(f.t) THEN SubSeq(f.addr, 1, 7) ELSE SubSeq(f.addr, 5, 7)) \o << f.addr[8] - (f.addr[8] % 4) + f.ph >>))
Wire(f) == Header(f) \o f.data

\* fields that a header does not carry read as zero
Zero == [tc |-> 0, ln |-> 0, th |-> 0, td |-> 0, ep |-> 0, attr |-> 0, at |-> 0, length |-> 0, cid |-> 0, status |-> 0, bcm |-> 0,
         bc |-> 0, rid |-> 0, tag |-> 0, fbe |-> 0, lbe |-> 0, la |-> 0, addr |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, ph |-> 0, data |-> << >>]
Parse(b) ==
  LET t == NameOf(b[1] \div 32, b[1] % 32)
      len10 == Fld(b[3], 0, 2) * 256 + b[4]
      bc12 == (b[7] % 16) * 256 + b[8]
      c == [Zero EXCEPT !.tc = Fld(b[2], 4, 3), !.ln = Bit(b[2], 1), !.th = Bit(b[2], 0), !.td = Bit(b[3], 7), !.ep = Bit(b[3], 6),
                        !.attr = Bit(b[2], 2) * 4 + Fld(b[3], 4, 2), !.at = Fld(b[3], 2, 2),
                        !.length = IF len10 = 0 /\ t \notin {"CPL", "CPL_LOCKED"} THEN 1024 ELSE len10,
                        !.data = SubSeq(b, HdrLen(t) + 1, Len(b))] @@ [t |-> t]
      tag(low) == Bit(b[2], 7) * 512 + Bit(b[2], 3) * 256 + low
  IN IF IsCpl(t)
     THEN [c EXCEPT !.cid = b[5] * 256 + b[6], !.status = b[7] \div 32, !.bcm = Bit(b[7], 4), !.bc = IF bc12 = 0 THEN 4096 ELSE bc12,
                    !.rid = b[9] * 256 + b[10], !.tag = tag(b[11]), !.la = b[12] % 128]
     ELSE LET r == [c EXCEPT !.rid = b[5] * 256 + b[6], !.tag = tag(b[7]), !.lbe = b[8] \div 16, !.fbe = b[8] % 16] IN
          IF IsCfg(t) THEN [r EXCEPT !.cid = b[9] * 256 + b[10], !.addr = <<0, 0, 0, 0, 0, 0, b[11] % 16, b[12] - (b[12] % 4)>>]
          ELSE [r EXCEPT !.addr = (IF Long(t) THEN SubSeq(b, 9, 15) ELSE <<0, 0, 0, 0>> \o SubSeq(b, 9, 11)) \o <<b[HdrLen(t)] - (b[HdrLen(t)] % 4)>>,
                         !.ph = b[HdrLen(t)] % 4]

DataCredits(f) == ((Len(f.data) \div 4) + 3) \div 4

(* validity of a TLP as the validity check of the library names it *)
AddrLow(f) == (f.addr[7] % 16) * 256 + f.addr[8]
Valid(f, n) ==          \* n: bytes of payload
  /\ HasData(f.t) => n = 4 * f.length /\ f.length \in 1..1024
  /\ IsMem(f.t) => 4 * f.length <= 4096 - AddrLow(f)
  /\ (IsCfg(f.t) \/ IsIo(f.t)) => f.length = 1 /\ f.lbe = 0
  /\ f.t \in {"CPL_DATA", "CPL_LOCKED_DATA"} => f.bc + (f.la % 4) + 3 >= 4 * f.length
  /\ f.t \in {"CPL", "CPL_LOCKED"} => f.length = 0

-----------------------------------------------------------------------------
(* byte ranges and byte enables *)
\* bytes of a dword, from bit 0
Enabled(be) == {i \in 0..3 : Bit(be, i) = 1}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
\* first and last enabled byte, counted from the first dword, of a request with non-zero byte enables
FirstByte(len, fbe, lbe) == MinOf(Enabled(fbe))
LastByte(len, fbe, lbe) == IF len = 1 THEN MaxOf(Enabled(fbe)) ELSE 4 * (len - 1) + MaxOf(Enabled(lbe))
ByteCount(len, fbe, lbe) == IF fbe = 0 THEN 1 ELSE LastByte(len, fbe, lbe) - FirstByte(len, fbe, lbe) + 1
FirstOff(fbe) == IF fbe = 0 THEN 0 ELSE MinOf(Enabled(fbe))
MaskBelow(k) == (2 ^ k) - 1
\* the request for bytes a .. a+n-1
RangeLen(a, n) == IF n = 0 THEN 1 ELSE (((a % 4) + n + 3) \div 4)
RangeFbe(a, n) == IF n = 0 THEN 0
                  ELSE LET lo == a % 4
                           hi == IF lo + n > 4 THEN 4 ELSE lo + n
                       IN MaskBelow(hi) - MaskBelow(lo)
RangeLbe(a, n) == IF n = 0 \/ RangeLen(a, n) = 1 THEN 0 ELSE MaskBelow(((a + n - 1) % 4) + 1)

-----------------------------------------------------------------------------
(* DLLPs: <<type, byte 1, byte 2, byte 3>> and the CRC *)
Dk == [ACK |-> 0, DATA_LINK_FEATURE |-> 2, NAK |-> 16, PM_ENTER_L1 |-> 32, PM_ENTER_L23 |-> 33, PM_ACT_ST_REQ_L1 |-> 35, PM_REQ_ACK |-> 36,
       NOP |-> 49, INIT_FC1_P |-> 64, INIT_FC1_NP |-> 80, INIT_FC1_CPL |-> 96, INIT_FC2_P |-> 192, INIT_FC2_NP |-> 208, INIT_FC2_CPL |-> 224,
       UPDATE_FC_P |-> 128, UPDATE_FC_NP |-> 144, UPDATE_FC_CPL |-> 160]
FcKinds == {"INIT_FC1_P", "INIT_FC1_NP", "INIT_FC1_CPL", "INIT_FC2_P", "INIT_FC2_NP", "INIT_FC2_CPL", "UPDATE_FC_P", "UPDATE_FC_NP", "UPDATE_FC_CPL"}
DllpBytes(d) ==
  IF d.t \in {"ACK", "NAK"} THEN <<Dk[d.t], 0, d.seq \div 256, d.seq % 256>>
  ELSE IF d.t = "DATA_LINK_FEATURE" THEN <<2, d.fa * 128 + (d.fs \div 65536), (d.fs \div 256) % 256, d.fs % 256>>
  ELSE IF d.t \in FcKinds
  THEN <<Dk[d.t] + d.vc, d.hs * 64 + (d.h \div 4), (d.h % 4) * 64 + d.ds * 16 + (d.d \div 256), d.d % 256>>
  ELSE <<Dk[d.t], 0, 0, 0>>

\* x^16 + x^12 + x^3 + x + 1 over the bytes in order, each byte from its least significant bit;
\* starts at all ones; the result is complemented, and the coefficient of x^15 is bit 0 of the first checksum byte
RECURSIVE CrcBits(_, _, _)
CrcBits(reg, bytes, i) ==
  IF i = 8 * Len(bytes) THEN reg
  ELSE LET in == Bit(bytes[(i \div 8) + 1], i % 8)
           fb == (Bit(reg, 15) + in) % 2
           sh == (reg * 2) % 65536
       IN CrcBits(IF fb = 1 THEN sh ^^ 4107 ELSE sh, bytes, i + 1)
RECURSIVE Rev(_, _)
Rev(v, n) == IF n = 0 THEN 0 ELSE (v % 2) * (2 ^ (n - 1)) + Rev(v \div 2, n - 1)
Crc(bytes) == LET r == 65535 - CrcBits(65535, bytes, 0) IN <<Rev(r \div 256, 8), Rev(r % 256, 8)>>
DllpWire(d) == LET b == DllpBytes(d) IN b \o Crc(b)
CrcOK(b) == Len(b) = 6 /\ Crc(SubSeq(b, 1, 4)) = SubSeq(b, 5, 6)

-----------------------------------------------------------------------------
(* UltraScale descriptors.  A dword is <<upper half, lower half>>.           *)
ReqType(t) == CASE t \in {"MEM_READ", "MEM_READ_64"} -> 0 [] t \in {"MEM_WRITE", "MEM_WRITE_64"} -> 1 [] t = "IO_READ" -> 2 [] t = "IO_WRITE" -> 3
                [] t \in {"FETCH_ADD", "FETCH_ADD_64"} -> 4 [] t \in {"SWAP", "SWAP_64"} -> 5 [] t \in {"CAS", "CAS_64"} -> 6
                [] t \in {"MEM_READ_LOCKED", "MEM_READ_LOCKED_64"} -> 7 [] t = "CFG_READ_0" -> 8 [] t = "CFG_READ_1" -> 9
                [] t = "CFG_WRITE_0" -> 10 [] t = "CFG_WRITE_1" -> 11 [] OTHER -> 15
W(b1, b2) == b1 * 256 + b2
AddrDws(f) == << <<W(f.addr[5], f.addr[6]), W(f.addr[7], f.addr[8] - (f.addr[8] % 4)) + f.at>>, <<W(f.addr[1], f.addr[2]), W(f.addr[3], f.addr[4])>> >>
DescCq(f) == AddrDws(f) \o
  << <<f.rid, f.length + 2048 * ReqType(f.t)>>,
     <<f.bar + 8 * f.ap + 512 * f.tc + 4096 * f.attr, (f.tag % 256) + 256 * (f.cid % 8)>> >>
DescRq(f) == (IF IsCfg(f.t) THEN << <<0, W(f.addr[7] % 16, f.addr[8] - (f.addr[8] % 4))>>, <<0, 0>> >> ELSE AddrDws(f)) \o
  << <<f.rid, f.length + 2048 * ReqType(f.t) + 32768 * f.ep>>,
     <<(f.cid \div 256) + 256 * f.rie + 512 * f.tc + 4096 * f.attr, (f.tag % 256) + 256 * (f.cid % 256)>> >>
Locked(f) == IF f.t \in {"CPL_LOCKED", "CPL_LOCKED_DATA"} THEN 1 ELSE 0
DescCc(f) == << <<f.bc + 8192 * Locked(f), f.la + 256 * f.at>>,
                <<f.rid, f.length + 2048 * f.status + 16384 * f.ep>>,
                <<(f.cid \div 256) + 256 * f.cie + 512 * f.tc + 4096 * f.attr, (f.tag % 256) + 256 * (f.cid % 256)>> >>
DescRc(f) == << <<f.bc + 8192 * Locked(f) + 16384 * f.rqc, f.la + 4096 * f.err>>,
                <<f.rid, f.length + 2048 * f.status + 16384 * f.ep>>,
                <<(f.cid \div 256) + 512 * f.tc + 4096 * f.attr, (f.tag % 256) + 256 * (f.cid % 256)>> >>
Payload(f) == [i \in 1..(Len(f.data) \div 4) |-> <<W(f.data[4 * i], f.data[4 * i - 1]), W(f.data[4 * i - 2], f.data[4 * i - 3])>>]
Frame(k, f) == (CASE k = "cq" -> DescCq(f) [] k = "cc" -> DescCc(f) [] k = "rq" -> DescRq(f) [] k = "rc" -> DescRc(f)) \o Payload(f)

RECURSIVE Ones(_)
Ones(b) == IF b = 0 THEN 0 ELSE (b % 2) + Ones(b \div 2)
OddPar == [b \in 0..255 |-> 1 - (Ones(b) % 2)]
DwPar(d) == OddPar[d[2] % 256] + 2 * OddPar[d[2] \div 256] + 4 * OddPar[d[1] % 256] + 8 * OddPar[d[1] \div 256]
\* byte enables of the payload dwords
BeSeq(n, fbe, lbe) == [i \in 1..n |-> IF i = 1 THEN fbe ELSE IF i = n THEN lbe ELSE 15]
\* completion: the valid bytes of the payload are those of the bc bytes from la on that this completion carries
CplBe(n, la, bc) == [i \in 1..n |-> LET lo == IF i = 1 THEN la % 4 ELSE 0
                                        end == (la % 4) + bc - 4 * (i - 1)
                                        hi == IF end > 4 THEN 4 ELSE end
                                    IN MaskBelow(hi) - MaskBelow(lo)]
ByteEn(k, f) == LET n == Len(f.data) \div 4 IN
                CASE k = "cq" -> <<0, 0, 0, 0>> \o BeSeq(n, f.fbe, f.lbe) [] k = "rc" -> <<0, 0, 0>> \o CplBe(n, f.la, f.bc) [] OTHER -> << >>
\* the fields each interface carries
Carried(k) ==
  CASE k = "cq" -> {"t", "at", "addr", "length", "rid", "tag", "tc", "attr", "fbe", "lbe", "data", "bar", "ap", "disc"}
    [] k = "rq" -> {"t", "at", "addr", "length", "ep", "rid", "tag", "cid", "rie", "tc", "attr", "fbe", "lbe", "data", "disc", "seqn"}
    [] k = "cc" -> {"t", "la", "at", "bc", "length", "status", "ep", "rid", "cid", "cie", "tag", "tc", "attr", "data", "disc"}
    [] k = "rc" -> {"t", "la", "err", "bc", "rqc", "length", "status", "ep", "rid", "cid", "tag", "tc", "attr", "data", "disc"}
\* 64-bit requests to addresses below 4 GB are not distinguishable from 32-bit ones in a descriptor
Short(t) == NameOf(IF Fmt(t) \in {1, 3} THEN Fmt(t) - 1 ELSE Fmt(t), Typ(t))
Above4G(f) == \E i \in 1..4 : f.addr[i] # 0
DescKind(f) == IF Long(f.t) /\ ~Above4G(f) THEN Short(f.t) ELSE IF ~Long(f.t) /\ Above4G(f) THEN f.t ELSE f.t
=============================================================================
