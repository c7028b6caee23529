------------------------------ MODULE UsJudgeMC ------------------------------
(* The rule for judging completions, applied to every legal way of answering
   every small read: each piece is accepted with its full address, only the
   last one completes the request, and a piece with any wrong header field is
   rejected.                                                                  *)
EXTENDS UsModel
CONSTANTS Starts, MaxDw
VARIABLES r, pos, v, at
vars == <<r, pos, v, at>>
Total == UCount(r)
First == ULow(r.a) + UOff(r.fbe)
Bytes(x) == <<0, 0, 0, 0, 0, 0, x \div 256, x % 256>>
Fbe == {1, 2, 4, 8, 12, 14, 15, 6}
Reqs == {[t |-> "MEM_READ", a |-> Bytes(s), n |-> n, fbe |-> f, lbe |-> b, rid |-> 1, tc |-> 0, attr |-> 0] :
          s \in Starts, n \in 1..MaxDw, f \in Fbe, b \in {0, 1, 3, 7, 15}}
Legal(x) == IF x.n = 1 THEN x.lbe = 0 ELSE x.lbe # 0 /\ x.fbe \in {8, 12, 14, 15}
Piece(p, m) == [t |-> "CPL_DATA", rid |-> r.rid, tc |-> r.tc, attr |-> r.attr, st |-> 0, ep |-> 0, n |-> m, bc |-> Total - p, la |-> (First + p) % 128, d |-> << >>]
Dws(p) == (First + Total + 3) \div 4 - (First + p) \div 4
Init == r \in {x \in Reqs : Legal(x)} /\ pos = 0 /\ v = << >> /\ at = 0
Next == /\ pos < Total
        /\ \E m \in 1..Dws(pos) :
             LET c == Piece(pos, m) IN
             /\ v' = <<Judge(<<r>>, c)>> /\ at' = pos
             /\ pos' = Min2(Total, pos + 4 * m - ((First + pos) % 4))
             /\ UNCHANGED r
Spec == Init /\ [][Next]_vars
Accepted == v = << >> \/ (v[1].err = Ok /\ v[1].la = (First + at) % 4096)
Completes == v = << >> \/ (v[1].free <=> pos = Total)
Rejected == LET c == Piece(pos, 1) IN
  pos < Total => /\ Judge(<< >>, c).err = BadTag
                 /\ \A x \in {[c EXCEPT !.rid = 2], [c EXCEPT !.tc = 1], [c EXCEPT !.attr = 1]} : Judge(<<r>>, x).err = Mismatch /\ ~Judge(<<r>>, x).free
                 /\ \A k \in 1..127 : Judge(<<r>>, [c EXCEPT !.la = (@ + k) % 128]).err = BadAddress
                 /\ \A s \in {1, 2, 4} : Judge(<<r>>, [c EXCEPT !.st = s]).err = BadStatus
                 /\ Judge(<<r>>, [c EXCEPT !.t = "CPL"]).err = BadLength
=============================================================================
