-------------------------------- MODULE Tlp --------------------------------
(* Transaction layer packets as recorded: classification, byte enables and the
   rules PCIe puts on requests and completions. *)
EXTENDS Integers, Sequences, FiniteSets, Addr

MemRd == {"MRd", "MRd64"}
MemWr == {"MWr", "MWr64"}
Mem == MemRd \cup MemWr
Cfg0 == {"CfgRd0", "CfgWr0"}
Cfg1 == {"CfgRd1", "CfgWr1"}
CfgT == Cfg0 \cup Cfg1
IoT == {"IORd", "IOWr"}
CplT == {"Cpl", "CplD"}
NonPosted == MemRd \cup IoT \cup CfgT
Posted == MemWr

Class(t) == IF t.ty \in CplT THEN "CPL" ELSE IF t.ty \in NonPosted THEN "NP" ELSE "P"

Bit(v, k) == (v \div (2 ^ k)) % 2 = 1
BeSet(be) == {k \in 0..3 : Bit(be, k)}
SMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SMax(S) == CHOOSE x \in S : \A y \in S : x >= y

(* the byte positions of the payload that an n-dword request with these byte enables touches *)
Enabled(n, fb, lb) ==
  IF n = 1 THEN BeSet(fb)
  ELSE BeSet(fb) \cup (4..(4 * (n - 1) - 1)) \cup {4 * (n - 1) + k : k \in BeSet(lb)}
ByteOn(n, fb, lb, i) ==
  IF i < 4 THEN Bit(fb, i) ELSE IF i < 4 * (n - 1) THEN TRUE ELSE n > 1 /\ Bit(lb, i - 4 * (n - 1))

(* PCIe table of byte counts: from the first to the last enabled byte; a zero length read counts 1 *)
FirstOff(fb) == IF fb = 0 THEN 0 ELSE SMin(BeSet(fb))
LastOff(n, fb, lb) == LET be == IF n = 1 THEN fb ELSE lb IN IF be = 0 THEN 3 ELSE 3 - SMax(BeSet(be))
ByteCount(n, fb, lb) == IF n = 1 /\ fb = 0 THEN 1 ELSE 4 * n - FirstOff(fb) - LastOff(n, fb, lb)

Contig(be) == LET s == BeSet(be) IN s = {} \/ s = SMin(s)..SMax(s)

(* byte enable rules of memory and I/O requests that are not deliberately sparse *)
BeRules(t) ==
  /\ t.fb \in 0..15 /\ t.lb \in 0..15
  /\ t.n = 1 => t.lb = 0
  /\ t.n > 1 => t.fb # 0 /\ t.lb # 0
  /\ t.n > 2 => Bit(t.fb, 3) /\ Bit(t.lb, 0)
  /\ Contig(t.fb) /\ Contig(t.lb)

MaxDw(code) == 32 * (2 ^ code)

(* a generated request of an agent with the given settings *)
ReqForm(t) ==
  /\ t.ty \in Mem \cup IoT
  /\ t.n >= 1 /\ t.n <= 1024
  /\ t.ty \in IoT => t.n = 1 /\ A32(t.a)
  /\ t.a[4] % 4 = 0
  /\ t.ty \in {"MRd", "MWr"} => A32(t.a)
  /\ t.ty \in {"MRd64", "MWr64"} => ~A32(t.a)
  /\ t.ty \in MemWr \cup {"IOWr"} => t.nb = 4 * t.n
  /\ t.ty \in MemRd \cup {"IORd"} => t.nb = 0
No4K(t) == Low(t.a, 4096) + 4 * t.n <= 4096
SizeOk(t, mps, mrrs) == (t.ty \in MemWr => t.n <= MaxDw(mps)) /\ (t.ty \in MemRd => t.n <= MaxDw(mrrs))

SameHdr(a, b) == a.hd = b.hd
=============================================================================
