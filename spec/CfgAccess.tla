------------------------------ MODULE CfgAccess ------------------------------
(* Configuration accesses of the host software.  An access to n bytes from byte
   address o is carried out dword by dword in ascending order; every dword is
   one request with a byte enable per byte of the access, so that byte i of the
   data always belongs to register byte o + i whatever the alignment, and no
   other byte is enabled. *)
EXTENDS Integers, Sequences

(* the dword at progress p of an access (o, n): register, bytes of it, first lane *)
Reg(o, p) == (o + p) \div 4
Lane(o, p) == (o + p) % 4
Bytes4(o, n, p) == IF n - p < 4 - Lane(o, p) THEN n - p ELSE 4 - Lane(o, p)
Enabled(o, n, p) == {Lane(o, p) + k : k \in 0..(Bytes4(o, n, p) - 1)}
RECURSIVE Mask(_)
Mask(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN 2^x + Mask(S \ {x})

(* what a read of a dword gives the software *)
Failed == <<255, 255, 255, 255>>                        \* unsupported, aborted or timed out
Retry(vis) == IF vis = 1 THEN <<1, 0, 255, 255>> ELSE Failed
Take(v, o, n, p) == [k \in 1..Bytes4(o, n, p) |-> v[Lane(o, p) + k]]

(* words of a typed accessor are given as their digits, least significant first *)
Flat(ws, big, d) ==
  IF ws = 0 THEN d
  ELSE [i \in 1..(Len(d) * ws) |-> LET w == d[((i - 1) \div ws) + 1] k == (i - 1) % ws IN IF big = 1 THEN w[ws - k] ELSE w[k + 1]]
=============================================================================
