------------------------------- MODULE Addr -------------------------------
(* 64-bit addresses as four 16-bit limbs, most significant first (the model
   checker's integers have 32 bits). *)
EXTENDS Integers, Sequences

W == 65536
AZero == <<0, 0, 0, 0>>

ALt(a, b) == \/ a[1] < b[1]
             \/ a[1] = b[1] /\ a[2] < b[2]
             \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
             \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3] /\ a[4] < b[4]
ALe(a, b) == a = b \/ ALt(a, b)

(* a + n for 0 <= n < 2^30 *)
AAdd(a, n) ==
  LET s4 == a[4] + (n % W)
      s3 == a[3] + (n \div W) + (s4 \div W)
      s2 == a[2] + (s3 \div W)
      s1 == a[1] + (s2 \div W)
  IN <<s1 % W, s2 % W, s3 % W, s4 % W>>

(* a + b, carries out of the top dropped *)
APlus(a, b) ==
  LET s4 == a[4] + b[4]
      s3 == a[3] + b[3] + (s4 \div W)
      s2 == a[2] + b[2] + (s3 \div W)
      s1 == a[1] + b[1] + (s2 \div W)
  IN <<s1 % W, s2 % W, s3 % W, s4 % W>>

(* a - b for b <= a *)
AMinus(a, b) ==
  LET d4 == a[4] - b[4]
      c4 == IF d4 < 0 THEN 1 ELSE 0
      d3 == a[3] - b[3] - c4
      c3 == IF d3 < 0 THEN 1 ELSE 0
      d2 == a[2] - b[2] - c3
      c2 == IF d2 < 0 THEN 1 ELSE 0
      d1 == a[1] - b[1] - c2
  IN <<d1 % W, d2 % W, d3 % W, d4 % W>>

ASmall(a) == a[1] = 0 /\ a[2] = 0 /\ a[3] < 16384
AInt(a) == a[3] * W + a[4]

(* offset of a from base, or -1 when outside base .. base+size-1 (size an integer) *)
AOff(a, base, size) ==
  IF ALt(a, base) THEN -1
  ELSE LET d == AMinus(a, base) IN IF ASmall(d) /\ AInt(d) < size THEN AInt(d) ELSE -1

AIn(a, base, limit) == ALe(base, a) /\ ALe(a, limit)

Low(a, m) == a[4] % m                \* m a power of two up to 65536
A32(a) == a[1] = 0 /\ a[2] = 0

(* bitwise: a is a multiple of the power of two p (a limb vector) *)
AAligned(a, p) ==
  IF p[4] # 0 THEN a[4] % p[4] = 0
  ELSE a[4] = 0 /\ (IF p[3] # 0 THEN a[3] % p[3] = 0
                    ELSE a[3] = 0 /\ (IF p[2] # 0 THEN a[2] % p[2] = 0
                                      ELSE a[2] = 0 /\ (IF p[1] # 0 THEN a[1] % p[1] = 0 ELSE TRUE)))
P2 == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768}
Pow2(p) == \E i \in 1..4 : p[i] \in P2 /\ \A j \in 1..4 : j # i => p[j] = 0

AMin(a, b) == IF ALt(a, b) THEN a ELSE b
(* the ranges [a, a+s) and [b, b+t) do not meet (s, t limb vectors, > 0) *)
ADisjoint(a, s, b, t) == ALe(APlus(a, s), b) \/ ALe(APlus(b, t), a)
=============================================================================
