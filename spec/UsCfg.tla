-------------------------------- MODULE UsCfg --------------------------------
(* Status, flow control and interrupt interfaces of the UltraScale hard IP as
   functions of the configuration spaces of its functions and of the credits
   exchanged over the link.
   fs: sequence of configuration spaces (register -> [v: set of bits, ...]);
   off: sequence of [EXP, MSI, MSIX |-> dword offset or -1].                 *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Num(_)
Num(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN 2 ^ x + Num(S \ {x})
Fld(sp, r, lo, w) == IF r \notin DOMAIN sp THEN 0 ELSE Num({b - lo : b \in {b \in sp[r].v : lo <= b /\ b < lo + w}})
Bit(sp, r, k) == r \in DOMAIN sp /\ k \in sp[r].v
RECURSIVE Weave(_, _, _)
Weave(F(_), k, n) == IF k > n THEN 0 ELSE F(k) + Weave(F, k + 1, n)      \* sum of F(1) .. F(n)
B(p, v) == IF p THEN v ELSE 0
RECURSIVE Lg(_)
Lg(n) == IF n <= 1 THEN 0 ELSE 1 + Lg(n \div 2)
RECURSIVE LgUp(_)
LgUp(n) == IF n <= 1 THEN 0 ELSE 1 + LgUp((n + 1) \div 2)

MsiOn(sp, o) == o.MSI >= 0 /\ Bit(sp, o.MSI, 16)
MsiM(sp, o) == IF o.MSI < 0 THEN 0 ELSE Fld(sp, o.MSI, 20, 3)             \* enabled messages
MsiC(sp, o) == IF o.MSI < 0 THEN 0 ELSE Fld(sp, o.MSI, 17, 3)             \* messages wanted
MsixOn(sp, o) == o.MSIX >= 0 /\ Bit(sp, o.MSIX, 31)
MsixMask(sp, o) == o.MSIX >= 0 /\ Bit(sp, o.MSIX, 30)
Bme(sp) == Bit(sp, 1, 2)

FunctionStatus(fs) == LET F(k) == (B(Bit(fs[k], 1, 0), 1) + B(Bit(fs[k], 1, 1), 2) + B(Bit(fs[k], 1, 2), 4) + B(Bit(fs[k], 1, 10), 8)) * 16 ^ (k - 1) IN Weave(F, 1, Len(fs))
RcbStatus(fs, off) == LET F(k) == B(Bit(fs[k], off[k].EXP + 4, 3), 2 ^ (k - 1)) IN Weave(F, 1, Len(fs))
MsiEnable(fs, off) == LET F(k) == B(MsiOn(fs[k], off[k]), 2 ^ (k - 1)) IN Weave(F, 1, Len(fs))
MsiMmEnable(fs, off) == LET F(k) == MsiM(fs[k], off[k]) * 8 ^ (k - 1) IN Weave(F, 1, Len(fs))
MsixEnable(fs, off) == LET F(k) == B(MsixOn(fs[k], off[k]), 2 ^ (k - 1)) IN Weave(F, 1, Len(fs))
MsixMaskAll(fs, off) == LET F(k) == B(MsixMask(fs[k], off[k]), 2 ^ (k - 1)) IN Weave(F, 1, Len(fs))
Speed(fam, s) == IF s = 0 THEN 0 ELSE IF fam = "u" THEN 2 ^ (s - 1) ELSE s - 1
Width(fam, w) == IF fam = "u" THEN w ELSE Lg(w)

(* an interrupt request of the user: may a message be sent? *)
MsiLegal(sp, o, vec) == MsiOn(sp, o) /\ Cardinality(vec) = 1 /\ \A k \in vec : k < 2 ^ (IF MsiM(sp, o) < MsiC(sp, o) THEN MsiM(sp, o) ELSE MsiC(sp, o))
MsiGood(sp, o, vec) == MsiLegal(sp, o, vec) /\ Bme(sp)
(* masked vectors: the request is remembered, the message is sent when the vector is unmasked *)
MsiPvm(sp, o) == o.MSI >= 0 /\ 24 \in sp[o.MSI].v
MaskReg(sp, o) == o.MSI + (IF 23 \in sp[o.MSI].v THEN 4 ELSE 3)
MsiMasked(sp, o, vec) == MsiPvm(sp, o) /\ MsiLegal(sp, o, vec) /\ \A k \in vec : k \in sp[MaskReg(sp, o)].v
MsiReady(sp, o) == IF ~(MsiPvm(sp, o) /\ Bme(sp)) THEN {} ELSE {k \in sp[MaskReg(sp, o) + 1].v : MsiGood(sp, o, {k}) /\ k \notin sp[MaskReg(sp, o)].v}
MsixGood(sp, o) == MsixOn(sp, o) /\ Bme(sp)
(* bits of the message data *)
MsiBits(sp, o, k) == LET d == IF 23 \in sp[o.MSI].v THEN 3 ELSE 2 IN
  {b \in sp[o.MSI + d].v : b >= MsiM(sp, o)} \cup {b \in 0..4 : (k \div (2 ^ b)) % 2 = 1}

(* credits of the six kinds: posted headers and data, non-posted headers and data, completion headers and data *)
Kinds == 1..6
Mod(k) == IF k % 2 = 1 THEN 256 ELSE 4096
Use(c, n) == LET b == CASE c = "P" -> 1 [] c = "NP" -> 3 [] c = "CPL" -> 5 IN [k \in Kinds |-> IF k = b THEN 1 ELSE IF k = b + 1 THEN (n + 15) \div 16 ELSE 0]
Add(x, y) == [k \in Kinds |-> x[k] + y[k]]
(* init: credits advertised at first, 0: infinite; used: consumed; rel: given back *)
Consumed(init, used) == [k \in Kinds |-> IF init[k] = 0 THEN 0 ELSE used[k] % Mod(k)]
Limit(init, rel) == [k \in Kinds |-> IF init[k] = 0 THEN 0 ELSE (init[k] + rel[k]) % Mod(k)]
(* limits as P-Tile reports them: 12 bits for headers, 16 bits for data (scaled flow control) *)
WideLimit(init, rel) == [k \in Kinds |-> IF init[k] = 0 THEN 0 ELSE (init[k] + rel[k]) % (IF k % 2 = 1 THEN 4096 ELSE 65536)]
Avail(init, used, rel) == [k \in Kinds |-> IF init[k] = 0 THEN Mod(k) - 1 ELSE (init[k] + rel[k] - used[k]) % Mod(k)]
=============================================================================
