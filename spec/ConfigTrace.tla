----------------------------- MODULE ConfigTrace -----------------------------
(* Recorded configuration accesses of functions against the register tables. *)
EXTENDS ConfigBuild

VARIABLES l, sp
vars == <<l, sp>>
Init == l = 1 /\ sp = <<>>

Want(r) == IF r \in DOMAIN sp THEN sp[r].v ELSE {}
OnWr(e) == IF e.r \in DOMAIN sp THEN [sp EXCEPT ![e.r].v = Write(@, Range(e.data), Range(e.en), sp[e.r].rw, sp[e.r].w1c)] ELSE sp
OnDump(e) ==
  LET got == {<<x[1], Range(x[2])>> : x \in Range(e.regs)}
      want == {<<r, sp[r].v>> : r \in {r \in DOMAIN sp : sp[r].v # {}}} IN
  IF got = want THEN {}
  ELSE LET show == PrintT(<<"DIFF", got \ want, want \ got>>) IN IF ~show THEN {} ELSE {IF x[1] < 16 THEN "header_register" ELSE IF x[1] < 64 THEN "capability_register" ELSE "extended_register" : x \in (got \ want) \cup (want \ got)}

Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "fn" -> sp' = Build(e) /\ Report(l, {})
       [] e.ev = "wr" -> sp' = OnWr(e) /\ Report(l, Chk(e.st = 0, "write_status"))
       [] e.ev = "rd" -> UNCHANGED sp /\ Report(l, Chk(e.st = 0 /\ Range(e.data) = Want(e.r), "read_value"))
       [] e.ev = "dump" -> UNCHANGED sp /\ Report(l, OnDump(e))
       [] e.ev = "crash" -> UNCHANGED sp /\ Report(l, {"crash_" \o e.why})
       [] OTHER -> UNCHANGED sp /\ Report(l, {})
  /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
=============================================================================
