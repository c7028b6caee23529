-------------------------------- MODULE Msi --------------------------------
(* Message signalled interrupts: the host hands out vectors (message numbers)
   in blocks; a function with MSI puts its vector number into the low bits of
   the programmed data, one with MSI-X sends what its table says.            *)
EXTENDS Integers, Sequences, FiniteSets

\* first number of the block given to a request when `limit` numbers are used: blocks are aligned
Base(limit, align) == ((limit + align - 1) \div align) * align
\* data a function with 2^m enabled messages sends for vector k
Message(data, m, k) == (data - (data % 2^m)) + k
MinI(a, b) == IF a < b THEN a ELSE b

\* result of asking for lo..hi vectors of a capability offering n (0: absent)
Count(n, lo, hi) == IF n = 0 \/ hi < lo \/ n < lo THEN -1 ELSE MinI(n, hi)
=============================================================================
