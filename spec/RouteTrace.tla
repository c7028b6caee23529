----------------------------- MODULE RouteTrace -----------------------------
(* Every recorded TLP on every link and at every function against the rules. *)
EXTENDS VF, RouteRules

VARIABLES l, tp, hw, mp, rt
vars == <<l, tp, hw, mp, rt>>
Init == l = 1 /\ tp = <<>> /\ hw = <<>> /\ mp = <<>> /\ rt = <<>>

Upd(t, h, m) == IF t = <<>> \/ h = <<>> \/ m = <<>> THEN <<>> ELSE Routes(t, h, m)

Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "topo" -> tp' = e /\ hw' = <<>> /\ mp' = <<>> /\ rt' = <<>> /\ Report(l, {})
       [] e.ev = "hw" -> hw' = e /\ rt' = Upd(tp, e, mp) /\ UNCHANGED <<tp, mp>> /\ Report(l, {})
       [] e.ev = "map" -> mp' = e /\ rt' = Upd(tp, hw, e) /\ UNCHANGED <<tp, hw>> /\ Report(l, {})
       [] e.ev = "w" /\ rt # <<>> -> UNCHANGED <<tp, hw, mp, rt>> /\ Report(l, OnW(rt, e))
       [] e.ev = "rcv" /\ rt # <<>> -> UNCHANGED <<tp, hw, mp, rt>> /\ Report(l, OnRcv(rt, e))
       [] e.ev = "crash" -> UNCHANGED <<tp, hw, mp, rt>> /\ Report(l, {"crash_" \o e.why})
       [] OTHER -> UNCHANGED <<tp, hw, mp, rt>> /\ Report(l, {})
  /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
=============================================================================
