------------------------------ MODULE SetTrace ------------------------------
(* Payload size, read request size and tag settings of the hierarchy: legal when
   enumeration has finished, obeyed by what is sent, and never exceeding what a
   component on the way to the root complex supports.                        *)
EXTENDS VF, Hier, Tlp

VARIABLES l, tp, hw
vars == <<l, tp, hw>>
Init == l = 1 /\ tp = <<>> /\ hw = <<>>

HwOf(f) == LET i == CHOOSE i \in DOMAIN hw.fns : hw.fns[i].f = f IN hw.fns[i]
Rc == hw.rc

(* after enumeration *)
OnTree ==
  LET S == {<<f, c>> \in Nodes(tp) \X {"mps_unsupported", "mps_path", "mps_above_parent", "mps_root_port", "mrrs_invalid", "tags_unsupported"} :
     LET h == HwOf(f) IN
     CASE c = "mps_unsupported" -> h.mps > Fn(tp, f).mpss
       [] c = "mps_path" -> \E g \in Above(tp, f) \ {0} : h.mps > Fn(tp, g).mpss
       [] c = "mps_above_parent" -> h.mps > (IF Up(tp, f) = 0 THEN Rc.mps ELSE HwOf(Up(tp, f)).mps)
       [] c = "mps_root_port" -> (IF Up(tp, f) = 0 THEN FALSE ELSE Up(tp, Up(tp, f)) = 0) /\ HwOf(Up(tp, f)).mps > Fn(tp, f).mpss
       [] c = "mrrs_invalid" -> h.mrrs > 5
       [] c = "tags_unsupported" -> h.ete = 1 /\ Fn(tp, f).ets = 0}
  IN {x[2] : x \in S}

(* a request or completion leaving agent f *)
OnSnd(e) ==
  IF e.f = 0 THEN {}
  ELSE LET h == HwOf(e.f) IN
    Chk(e.nb <= 4 * MaxDw(h.mps), "sent_above_mps")
    \cup Chk(e.ty \notin MemRd \/ e.n <= MaxDw(h.mrrs), "sent_above_mrrs")
    \cup Chk(e.ty \notin NonPosted \/ h.ete = 1 \/ e.tag < 32, "sent_extended_tag")
(* a TLP on its way up over link e.l *)
OnW(e) == IF e.d = 0 THEN {} ELSE LET u == tp.links[e.l].up IN
  Chk(e.nb <= 4 * MaxDw(Fn(tp, u).mpss), "link_above_mpss")

Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "topo" -> tp' = e /\ hw' = <<>> /\ Report(l, {})
       [] e.ev = "hw" -> hw' = e /\ UNCHANGED tp /\ Report(l, {})
       [] e.ev = "tree" -> UNCHANGED <<tp, hw>> /\ Report(l, OnTree)
       [] e.ev = "snd" /\ hw # <<>> -> UNCHANGED <<tp, hw>> /\ Report(l, OnSnd(e))
       [] e.ev = "w" /\ hw # <<>> -> UNCHANGED <<tp, hw>> /\ Report(l, OnW(e))
       [] e.ev = "crash" -> UNCHANGED <<tp, hw>> /\ Report(l, {"crash_" \o e.why})
       [] OTHER -> UNCHANGED <<tp, hw>> /\ Report(l, {})
  /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
=============================================================================
