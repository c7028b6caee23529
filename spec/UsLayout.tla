------------------------------ MODULE UsLayout ------------------------------
(* Positions of the sideband fields in tuser of the four interfaces, by data
   width (PG156 and PG213).  Position -1: the field does not exist.          *)
EXTENDS Integers, Sequences
None == [sop |-> -1, nsop |-> 0, sopp |-> -1, eop |-> -1, neop |-> 0, eopp |-> -1, eopstep |-> 0, fbe |-> -1, lbe |-> -1, be |-> -1, disc |-> -1, par |-> -1,
         seq |-> -1, seqn |-> 0, seqstep |-> 0, seqhi |-> -1]
Layout(i, w, uw) ==
  CASE i = "rq" /\ w = 512 -> [None EXCEPT !.fbe = 0, !.lbe = 8, !.sop = 20, !.nsop = 2, !.sopp = 22, !.eop = 26, !.neop = 2, !.eopp = 28, !.eopstep = 4, !.disc = 36,
                                           !.seq = 61, !.seqn = 6, !.seqstep = 6, !.par = 73]
    [] i = "rq" /\ w # 512 -> [None EXCEPT !.fbe = 0, !.lbe = 4, !.disc = 11, !.seq = 24, !.seqn = 4, !.par = 28, !.seqhi = IF uw = 62 THEN 60 ELSE -1]
    [] i = "rc" /\ w = 512 -> [None EXCEPT !.be = 0, !.sop = 64, !.nsop = 4, !.sopp = 68, !.eop = 76, !.neop = 4, !.eopp = 80, !.eopstep = 4, !.disc = 96, !.par = 97]
    [] i = "rc" /\ w # 512 -> [None EXCEPT !.be = 0, !.sop = 32, !.nsop = 2, !.eop = 34, !.neop = 2, !.eopp = 35, !.eopstep = 4, !.disc = 42, !.par = 43]
    [] i = "cq" /\ w = 512 -> [None EXCEPT !.fbe = 0, !.lbe = 8, !.be = 16, !.sop = 80, !.nsop = 2, !.sopp = 82, !.eop = 86, !.neop = 2, !.eopp = 88, !.eopstep = 4, !.disc = 96, !.par = 119]
    [] i = "cq" /\ w # 512 -> [None EXCEPT !.fbe = 0, !.lbe = 4, !.be = 8, !.sop = 40, !.nsop = 1, !.disc = 41, !.par = 53]
    [] i = "cc" /\ w = 512 -> [None EXCEPT !.sop = 0, !.nsop = 2, !.sopp = 2, !.eop = 6, !.neop = 2, !.eopp = 8, !.eopstep = 4, !.disc = 16, !.par = 17]
    [] OTHER -> [None EXCEPT !.disc = 0, !.par = 1]
=============================================================================
