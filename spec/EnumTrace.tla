----------------------------- MODULE EnumTrace -----------------------------
(* The outcome of an enumeration of the real code against the hierarchy that
   was built: numbering, identities, tree and bridge registers.            *)
EXTENDS VF, Hier

VARIABLES l, tp, hw
vars == <<l, tp, hw>>
Init == l = 1 /\ tp = <<>> /\ hw = <<>>

Hw(f) == LET i == CHOOSE i \in DOMAIN hw.fns : hw.fns[i].f = f IN hw.fns[i]

OnHw(e, t) ==
  LET R(f) == LET i == CHOOSE i \in DOMAIN e.fns : e.fns[i].f = f IN e.fns[i] IN
    Chk(\A f \in Nodes(t) : R(f).id = IdOf(t, f), "enum_own_id")
    \cup Chk(\A b \in Bridges(t) : R(b).pri = Pri(t, b) /\ R(b).sec = Sec(t, b) /\ R(b).sub = Sub(t, b), "enum_bus_registers")

(* identity, parent and numbering of every function in the host's tree *)
Match(t, d, f) ==
  LET x == Fn(t, f) IN
    /\ d.id = IdOf(t, f)
    /\ d.bus = BusOf(t, f)
    /\ d.par = (IF x.up = 0 THEN -1 ELSE IdOf(t, x.up))
    /\ d.vid = x.vid /\ d.did = x.did /\ d.cls = x.cls /\ d.rev = x.rev
    /\ d.hdr = (IF x.k = "ep" THEN 0 ELSE 1)
    /\ d.mf = x.mf
    /\ x.k = "ep" => d.svid = x.svid /\ d.ssid = x.ssid
    /\ x.k # "ep" => d.sec = Sec(t, f) /\ d.sub = Sub(t, f)

OnTree(e, t) ==
    Chk(\A f \in Nodes(t) : \E i \in DOMAIN e.devs : e.devs[i].id = IdOf(t, f), "enum_missing")
    \cup Chk(Len(e.devs) = Cardinality(Nodes(t)) /\ \A i, j \in DOMAIN e.devs : i # j => e.devs[i].id # e.devs[j].id, "enum_duplicate_or_ghost")
    \cup Chk(\A f \in Nodes(t) : \A i \in DOMAIN e.devs : e.devs[i].id = IdOf(t, f) => Match(t, e.devs[i], f), "enum_identity")
    \cup Chk(\A i \in DOMAIN e.find : e.find[i].hit = 1 /\ e.find[i].did = Fn(t, e.find[i].f).did, "enum_find")

Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "topo" -> tp' = e /\ hw' = <<>> /\ Report(l, {})
       [] e.ev = "hw" -> tp' = tp /\ hw' = e /\ Report(l, OnHw(e, tp))
       [] e.ev = "tree" -> UNCHANGED <<tp, hw>> /\ Report(l, OnTree(e, tp))
       [] e.ev = "crash" -> UNCHANGED <<tp, hw>> /\ Report(l, {"crash_" \o e.why})
       [] OTHER -> UNCHANGED <<tp, hw>> /\ Report(l, {})
  /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
=============================================================================
