------------------------------ MODULE MemSpace ------------------------------
(* Byte memories behind the regions, in blocks of 256 bytes; <<>> stands for a
   block that still has its initial contents.                               *)
EXTENDS Integers, Sequences, FiniteSets, Addr

InitByte(r, o) == (r * 53 + o * 7 + (o \div 256) * 13) % 256
MNew(regs) == [r \in {x.r : x \in regs} |-> LET x == CHOOSE x \in regs : x.r = r IN [b \in 0..((x.size - 1) \div 256) |-> <<>>]]
Byte(m, r, o) == LET b == m[r][o \div 256] IN IF b = <<>> THEN InitByte(r, o) ELSE b[(o % 256) + 1]

(* the bytes of [o, o+n) with On(i) true for their index i replaced by D(i) *)
MWriteIf(m, r, o, n, On(_), D(_)) ==
  IF n = 0 THEN m
  ELSE [m EXCEPT ![r] = [b \in DOMAIN @ |->
          IF b < o \div 256 \/ b > (o + n - 1) \div 256 THEN @[b]
          ELSE [k \in 1..256 |-> LET p == b * 256 + k - 1 i == p - o IN
                  IF i >= 0 /\ i < n THEN (IF On(i) THEN D(i) ELSE Byte(m, r, p)) ELSE Byte(m, r, p)]]]
MWrite(m, r, o, data) == LET t(i) == TRUE d(i) == data[i + 1] IN MWriteIf(m, r, o, Len(data), t, d)
MRead(m, r, o, n) == [i \in 1..n |-> Byte(m, r, o + i - 1)]

(* differences between two states of the memories *)
MDiff(a, b) == UNION {UNION {IF a[r][k] = b[r][k] THEN {}
                             ELSE {<<r, o, Byte(b, r, o)>> : o \in {p \in (k * 256)..(k * 256 + 255) : Byte(a, r, p) # Byte(b, r, p)}}
                             : k \in DOMAIN a[r]} : r \in DOMAIN a}
=============================================================================
