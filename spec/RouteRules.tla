----------------------------- MODULE RouteRules -----------------------------
(* What routing has to satisfy, stated over a hierarchy as a whole: every TLP on
   a link is there because its source and destination lie on different sides of
   it in the direction it travels, and it is handed to the function it names.
   Shared by the model of hop-by-hop routing and the trace specification.   *)
EXTENDS Fabric
LOCAL C(b, name) == IF b THEN {} ELSE {name}

(* a TLP on link e.l, downwards (d = 0) or upwards (d = 1) *)
OnW(rt, e) ==
  LET D == Dest(rt, e) S == Src(rt, e) B == rt.below[e.l] u == rt.lup[e.l] IN
  IF e.d = 0
  THEN C(S = -1 \/ S \notin B, "route_loops_down")
       \cup C(IF D = -1 THEN Covers(rt, u, e) ELSE D \in B, "route_wrong_link")
       \cup C(e.ty \notin Cfg0 \/ e.cid \div 256 = rt.win[u].sec, "cfg_type0_off_bus")
       \cup C(e.ty \notin Cfg1 \/ (e.cid \div 256 # rt.win[u].sec /\ rt.ldn[e.l] # "ep"), "cfg_type1_on_target_bus")
  ELSE C(e.ty \notin CfgT, "cfg_upstream")
       \cup C(S \in B, "route_foreign_source")
       \cup C(IF rt.ldn[e.l] = "ep" THEN TRUE
              ELSE IF D # -1 THEN D \notin B
              ELSE LET c == {x \in B : rt.up[x] = u} IN \A x \in c : ~Covers(rt, x, e), "route_not_local")

(* what reaches a function (0: the root complex) *)
OnRcv(rt, e) ==
  LET D == Dest(rt, e) IN
    C(D = e.f \/ (e.f = 0 /\ D = -1), "delivered_to_wrong_function")
    \cup C(e.f = 0 \/ e.ty \notin Cfg1, "cfg_type1_delivered")
=============================================================================
