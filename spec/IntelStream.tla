----------------------------- MODULE IntelStream -----------------------------
(* The receive and transmit streams of the Stratix 10 and P-Tile hard IP: a beat
   carries one or more segments, a TLP starts at the beginning of a segment and
   takes the segments that follow; a beat may be presented only L clocks after
   a clock in which the other side was ready (L = 0: it is presented until the
   other side is ready).                                                      *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Ones(_)
Ones(b) == IF b = 0 THEN 0 ELSE (b % 2) + Ones(b \div 2)
OddPar == [b \in 0..255 |-> 1 - (Ones(b) % 2)]
\* a dword is <<high half, low half>>; one bit per byte, least significant byte first
DwPar(d) == OddPar[d[2] % 256] + 2 * OddPar[d[2] \div 256] + 4 * OddPar[d[1] % 256] + 8 * OddPar[d[1] \div 256]
EvenPar16(x) == (1 - OddPar[x % 256]) + 2 * (1 - OddPar[x \div 256])
\* header of eight half words, most significant first: bit i of the parity is byte i, byte 0 the least significant
RECURSIVE HdrPar(_, _)
HdrPar(h, i) == IF i > Len(h) THEN 0 ELSE EvenPar16(h[i]) * 4 ^ (Len(h) - i) + HdrPar(h, i + 1)

(* dwords of a TLP from its first header dword; inline: the header is part of the data *)
Need(inline, d0) ==
  LET fmt == d0[1] \div 8192
      n == d0[2] % 1024
  IN (IF inline THEN (IF fmt % 2 = 1 THEN 4 ELSE 3) ELSE 0) + (IF (fmt \div 2) % 2 = 1 THEN (IF n = 0 THEN 1024 ELSE n) ELSE 0)

(* the segment that takes the dwords have+1.. of a TLP of need dwords *)
Take(lanes, have, need) == IF need - have < lanes THEN need - have ELSE lanes
Eop(lanes, have, need) == have + Take(lanes, have, need) = need
Empty(lanes, have, need) == lanes - Take(lanes, have, need)

(* may a beat be presented: hist, the ready values of the last L clocks, oldest first *)
MayPresent(L, hist) == IF L = 0 THEN TRUE ELSE Len(hist) = L /\ hist[1] = 1
Push(L, hist, r) == IF L = 0 THEN << >> ELSE IF Len(hist) < L THEN Append(hist, r) ELSE Append(Tail(hist), r)
=============================================================================
