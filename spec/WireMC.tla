------------------------------- MODULE WireMC -------------------------------
(* The wire format is a bijection: parsing what was encoded gives the packet
   back, for every packet type and every pair of field values, and the DLLP
   checksum detects every one- and two-bit corruption.                       *)
EXTENDS Wire, TLC
CONSTANTS Wide
VARIABLES f, done
Dom == [tc |-> {0, 1, 5, 7}, ln |-> {0, 1}, th |-> {0, 1}, td |-> {0, 1}, ep |-> {0, 1}, attr |-> 0..7, at |-> 0..2, length |-> {1, 2, 255, 256, 513, 1023, 1024},
        cid |-> {0, 1, 255, 256, 65535, 4660}, status |-> {0, 1, 2, 4}, bcm |-> {0, 1}, bc |-> {1, 4, 255, 256, 2049, 4095, 4096},
        rid |-> {0, 7, 248, 65280, 43981}, tag |-> {0, 1, 128, 255, 256, 512, 768, 1023}, fbe |-> {0, 1, 8, 15}, lbe |-> {0, 1, 8, 15}, la |-> {0, 1, 64, 127},
        addr |-> {<<0, 0, 0, 0, 0, 0, 0, 4>>, <<0, 0, 0, 0, 255, 1, 2, 252>>, <<128, 0, 64, 1, 16, 32, 15, 8>>}, ph |-> 0..3]
CplF == {"cid", "status", "bcm", "bc", "la"}
ReqF == {"fbe", "lbe", "addr", "ph"}
Common == {"tc", "ln", "th", "td", "ep", "attr", "at", "length", "rid", "tag"}
Fields(t) == Common \cup (IF IsCpl(t) THEN CplF ELSE IF IsCfg(t) THEN {"cid", "fbe", "lbe", "addr"} ELSE ReqF)
Fit(g) == LET a == IF IsCfg(g.t) THEN <<0, 0, 0, 0, 0, 0, g.addr[7] % 16, g.addr[8]>> ELSE IF Long(g.t) THEN g.addr ELSE <<0, 0, 0, 0>> \o SubSeq(g.addr, 5, 8)
              n == IF g.t \in {"CPL", "CPL_LOCKED"} THEN IF g.length = 1024 THEN 0 ELSE g.length ELSE g.length
          IN [[g EXCEPT !.addr = a] EXCEPT !.length = n]
Base(t) == Fit([x \in DOMAIN Zero |-> IF x = "length" THEN 1 ELSE IF x = "bc" /\ IsCpl(t) THEN 4 ELSE Zero[x]] @@ [t |-> t])
Init == /\ done = FALSE
        /\ \E t \in Names : \E a \in Fields(t), b \in Fields(t) : \E x \in Dom[a], y \in Dom[b] :
             f = Fit([[Base(t) EXCEPT ![a] = x] EXCEPT ![b] = y])
Next == ~done /\ done' = TRUE /\ UNCHANGED f
Spec == Init /\ [][Next]_<<f, done>>
RoundTrip == Parse(Wire(f)) = f
Sized == Len(Header(f)) = HdrLen(f.t) /\ \A i \in DOMAIN Header(f) : Header(f)[i] \in 0..255
Again == Wire(Parse(Wire(f))) = Wire(f)

FlipBit(b, i) == [b EXCEPT ![(i \div 8) + 1] = @ ^^ (2 ^ (i % 8))]
SampleD == [t |-> "UPDATE_FC_NP", vc |-> 3, hs |-> 2, h |-> 165, ds |-> 1, d |-> 2882]
ASSUME CrcOK(DllpWire(SampleD))
ASSUME \A i \in 0..47 : ~CrcOK(FlipBit(DllpWire(SampleD), i))
ASSUME \A i \in 0..47 : \A j \in 0..(i - 1) : ~CrcOK(FlipBit(FlipBit(DllpWire(SampleD), i), j))
\* byte ranges: exactly the requested bytes are enabled
Bytes(len, fbe, lbe) == {4 * i + k : i \in 0..(len - 1), k \in 0..3} \cap
   {b \in 0..(4 * len - 1) : Bit(IF b < 4 THEN fbe ELSE IF b >= 4 * (len - 1) THEN lbe ELSE 15, b % 4) = 1}
ASSUME \A a \in 0..3 : \A n \in 1..Wide :
   /\ Bytes(RangeLen(a, n), RangeFbe(a, n), RangeLbe(a, n)) = a..(a + n - 1)
   /\ ByteCount(RangeLen(a, n), RangeFbe(a, n), RangeLbe(a, n)) = n /\ FirstOff(RangeFbe(a, n)) = a
ASSUME \A la \in 0..3 : \A bc \in 1..Wide : LET n == (la + bc + 3) \div 4 IN CplBe(n, la, bc) = BeSeq(n, RangeFbe(la, bc), RangeLbe(la, bc))
=============================================================================
