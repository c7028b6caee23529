------------------------------- MODULE SplitMC -------------------------------
(* Splitting of accesses into requests and of requests into completions, on a
   small scale: pages of P bytes, request limit M bytes, dwords of DW bytes,
   completion boundary R bytes.  The initial states range over every address
   and length; the step rules are the ones the trace specifications ReqTrace
   and CplTrace accept, and they imply the exact tiling, termination and
   minimality the properties C07 and C08 ask for.                           *)
EXTENDS Integers, Sequences

CONSTANTS P, M, DW, L
R == M \div 2

VARIABLES kind, a, len, done, pieces
vars == <<kind, a, len, done, pieces>>

Mn(x, y) == IF x < y THEN x ELSE y
Init == kind \in {"rd", "wr", "cpl"} /\ a \in 0..(2 * P - 1) /\ len \in 1..L /\ done = 0 /\ pieces = <<>>
        /\ (kind = "cpl" => (a % P) + len <= P)

At == a + done
Left == len - done
Pad == At % DW
(* dwords a piece of n bytes starting at At occupies, in bytes *)
Span(n) == ((Pad + n + DW - 1) \div DW) * DW
Page == P - (At % P)

(* the longest piece the rules allow *)
WrLen == Mn(Mn(Left, M - Pad), Page)
RdLen == Mn(IF Left > M - Pad THEN Mn(Left, M - (At % R)) ELSE Left, Page)
CplLen == IF Span(Left) > M THEN M - (At % R) ELSE Left

Piece == CASE kind = "wr" -> WrLen [] kind = "rd" -> RdLen [] OTHER -> CplLen

Step == done < len /\ done' = done + Piece
        /\ pieces' = Append(pieces, [s |-> At, n |-> Piece, sp |-> Span(Piece)]) /\ UNCHANGED <<kind, a, len>>
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Good ==
  /\ done <= len
  /\ \A i \in DOMAIN pieces :
       LET p == pieces[i] IN
       /\ p.n > 0 /\ p.sp <= M                                            \* never oversized, always progress
       /\ (p.s % P) + p.n <= P                                            \* never across a page
       /\ (i = 1 => p.s = a) /\ (i > 1 => p.s = pieces[i - 1].s + pieces[i - 1].n)   \* tiling, ascending
       /\ (p.s + p.n # a + len => \/ (p.s + p.n) % P = 0
                                  \/ (kind = "wr" /\ p.sp = M)
                                  \/ (kind # "wr" /\ (p.s + p.n) % R = 0 /\ p.sp > M - R))   \* stops only where forced
       /\ (kind = "cpl" /\ p.s + p.n # a + len => (p.s + p.n) % R = 0)
  /\ (done = len => Len(pieces) <= 2 + (len + R - 1) \div R)
Finishes == <>(done = len)
=============================================================================
