------------------------------- MODULE UsModel -------------------------------
(* Rules of the UltraScale hard IP between the link and the user interfaces:
   how a completion is judged against the outstanding request of its tag, and
   which function and BAR a request is for.  Addresses are eight bytes, most
   significant first.                                                         *)
EXTENDS Integers, Sequences, FiniteSets

MemRdT == {"MEM_READ", "MEM_READ_64"}
MemWrT == {"MEM_WRITE", "MEM_WRITE_64"}
IoRT == {"IO_READ", "IO_WRITE"}
Cfg0T == {"CFG_READ_0", "CFG_WRITE_0"}
Cfg1T == {"CFG_READ_1", "CFG_WRITE_1"}
CplDT == {"CPL_DATA", "CPL_LOCKED_DATA"}

Min2(a, b) == IF a < b THEN a ELSE b
UBit(v, k) == (v \div (2 ^ k)) % 2 = 1
UOff(be) == IF be = 0 THEN 0 ELSE CHOOSE k \in 0..3 : UBit(be, k) /\ \A j \in 0..3 : UBit(be, j) => k <= j
UTop(be) == IF be = 0 THEN 3 ELSE CHOOSE k \in 0..3 : UBit(be, k) /\ \A j \in 0..3 : UBit(be, j) => j <= k
UCount(r) == IF r.n = 1 /\ r.fbe = 0 THEN 1 ELSE 4 * r.n - UOff(r.fbe) - (3 - UTop(IF r.n = 1 THEN r.fbe ELSE r.lbe))
ULow(a) == a[8] + 256 * a[7]

Ok == 0
Poisoned == 1
BadStatus == 2
BadLength == 3
Mismatch == 4
BadAddress == 5
BadTag == 6

(* act: << >> or <<the outstanding request>>; c: the completion *)
Judge(act, c) ==
  IF act = << >> THEN [err |-> BadTag, la |-> c.la, rqc |-> 0, free |-> FALSE]
  ELSE LET r == act[1] IN
  IF c.rid # r.rid \/ c.attr # r.attr \/ c.tc # r.tc THEN [err |-> Mismatch, la |-> c.la, rqc |-> 0, free |-> FALSE]
  ELSE IF c.st # 0 THEN [err |-> BadStatus, la |-> c.la, rqc |-> 1, free |-> TRUE]
  ELSE LET p == IF c.ep = 1 THEN Poisoned ELSE Ok IN
  IF r.t \notin MemRdT THEN [err |-> p, la |-> c.la, rqc |-> 1, free |-> TRUE]
  ELSE LET full == ULow(r.a) + UOff(r.fbe) + UCount(r) - c.bc
           good == (full % 128) = c.la
           la == IF good THEN full % 4096 ELSE c.la
           fin == c.bc <= 4 * c.n - (la % 4)
       IN IF c.t \notin CplDT THEN [err |-> BadLength, la |-> la, rqc |-> 1, free |-> TRUE]
          ELSE [err |-> IF good THEN p ELSE BadAddress, la |-> la, rqc |-> IF fin THEN 1 ELSE 0, free |-> fin]

Clamp(x) == IF x < 0 THEN 0 ELSE IF x > 8 THEN 8 ELSE x
InBar(b, a) == \A i \in 1..8 : LET k == 2 ^ Clamp(b.s - (64 - 8 * i)) IN a[i] \div k = b.a[i] \div k
(* the first function and BAR that decode the address: <<function, BAR index, log2 of its size>> *)
BarHit(fns, a, io) ==
  LET hits == {<<f, k>> \in {<<f, k>> \in (1..Len(fns)) \X (1..6) : k <= Len(fns[f].bars)} : fns[f].bars[k].on = 1 /\ fns[f].bars[k].io = io /\ InBar(fns[f].bars[k], a)}
  IN IF hits = {} THEN << >>
     ELSE LET h == CHOOSE x \in hits : \A y \in hits : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
          IN <<h[1] - 1, fns[h[1]].bars[h[2]].i, fns[h[1]].bars[h[2]].s>>
=============================================================================
