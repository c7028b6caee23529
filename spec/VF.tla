------------------------------- MODULE VF -------------------------------
(* Trace plumbing shared by all trace specifications.  A trace file is a
   sequence of JSON records; verdicts are total: every record is consumed and
   every violated clause is reported with the line it was violated on. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.VF_TRACE)

Report(i, fs) == IF fs = {} THEN TRUE ELSE PrintT(<<"VIOL", i, fs>>)
Chk(b, name) == IF b THEN {} ELSE {name}
Has(e, f) == f \in DOMAIN e
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Range(s) == {s[i] : i \in DOMAIN s}
TraceAccepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
