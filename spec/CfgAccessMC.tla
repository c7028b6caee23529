---------------------------- MODULE CfgAccessMC ----------------------------
(* All accesses to a small register file with read-only bits: carried out dword by
   dword they act as one access to a byte array, also when other software writes
   other bytes in between; retry status only ever hides the first register. *)
EXTENDS CfgAccess, FiniteSets, TLC
CONSTANTS Regs, MaxLen, MaxCrs
VARIABLES file, want, acc, got, crs, other
vars == <<file, want, acc, got, crs, other>>
Addr == 0..(4 * Regs - 1)
RO == {1, 4 * Regs - 1}                                 \* bytes that ignore writes
Init == /\ file = [a \in Addr |-> a + 1] /\ want = file /\ crs \in 0..MaxCrs
        /\ acc = [w |-> 0, o |-> 0, n |-> 0, p |-> 0] /\ got = << >> /\ other = 1
New(a) == 100 + a
Start == /\ acc.p = acc.n /\ acc.n = 0
         /\ \E w \in 0..1, o \in Addr, n \in 1..MaxLen :
              /\ o + n <= 4 * Regs
              /\ acc' = [w |-> w, o |-> o, n |-> n, p |-> 0]
              /\ want' = [a \in Addr |-> IF w = 1 /\ a >= o /\ a < o + n /\ a \notin RO THEN New(a) ELSE want[a]]
         /\ got' = << >> /\ UNCHANGED <<file, crs, other>>
Step == /\ acc.p < acc.n
        /\ LET r == Reg(acc.o, acc.p) en == Enabled(acc.o, acc.n, acc.p) k == Bytes4(acc.o, acc.n, acc.p)
               dw == [i \in 1..4 |-> file[4 * r + i - 1]] IN
           /\ file' = IF acc.w = 1 THEN [a \in Addr |-> IF a \div 4 = r /\ a % 4 \in en /\ a \notin RO THEN New(a) ELSE file[a]] ELSE file
           /\ got' = IF acc.w = 1 THEN got ELSE got \o Take(IF r = 0 /\ crs > 0 THEN Retry(1) ELSE dw, acc.o, acc.n, acc.p)
           /\ crs' = IF acc.w = 0 /\ r = 0 /\ crs > 0 THEN crs - 1 ELSE crs
           /\ acc' = [acc EXCEPT !.p = @ + k]
        /\ UNCHANGED <<want, other>>
(* another agent changes a byte outside the access *)
Noise == /\ other > 0 /\ acc.n > 0
         /\ \E a \in Addr \ (RO \cup acc.o..(acc.o + acc.n - 1)) : file' = [file EXCEPT ![a] = 200] /\ want' = [want EXCEPT ![a] = 200]
         /\ other' = other - 1 /\ UNCHANGED <<acc, got, crs>>
Next == Start \/ Step \/ Noise
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
Done == acc.n > 0 /\ acc.p = acc.n
Exact == Done => file = want
Reads == Done /\ acc.w = 0 => /\ Len(got) = acc.n
                              /\ \A i \in 1..acc.n : got[i] = file[acc.o + i - 1] \/ (acc.o + i - 1 < 4 /\ got[i] = Retry(1)[acc.o + i])
Within == acc.p <= acc.n /\ (acc.p < acc.n => Mask(Enabled(acc.o, acc.n, acc.p)) \in 1..15)
Ends == [](acc.n > 0 => <>Done)
=============================================================================
