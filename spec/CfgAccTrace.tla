---------------------------- MODULE CfgAccTrace ----------------------------
(* Configuration accesses of the host against the register accesses they cause at
   the functions.  Each function is accessed by one branch at a time. *)
EXTENDS VF, CfgAccess

VARIABLES l, fn, crs, pend
vars == <<l, fn, crs, pend>>
Init == l = 1 /\ fn = << >> /\ crs = << >> /\ pend = << >>
None == [c |-> 0, w |-> 0, o |-> 0, n |-> 0, p |-> 0, d |-> << >>, got |-> << >>, ok |-> 1, to |-> 0, vis |-> 0, ws |-> 0, big |-> 0]

Base(f, cap, ext) == LET S == {c \in Range(fn[f].caps) : c[1] = cap /\ c[2] = ext} IN IF S = {} THEN -1 ELSE (CHOOSE c \in S : \A x \in S : c[3] <= x[3])[3]
(* reads that are answered with retry status never reach their register; only for the first register it is shown to software *)
RECURSIVE Skip(_, _)
Skip(x, k) == IF k.n > 0 /\ x.w = 0 /\ x.p < x.n /\ (k.any = 1 \/ Reg(x.o, x.p) = 0)
              THEN Skip([x EXCEPT !.got = @ \o Take(IF Reg(x.o, x.p) = 0 THEN Retry(x.vis) ELSE Failed, x.o, x.n, x.p), !.p = @ + Bytes4(x.o, x.n, x.p)], [k EXCEPT !.n = @ - 1])
              ELSE [x |-> x, k |-> k]

OnCall(e) ==
  LET b == IF e.cap = 0 THEN 0 ELSE IF e.f = -1 THEN -1 ELSE Base(e.f, e.cap, e.ext)
      x0 == [c |-> e.c, w |-> e.w, o |-> b + e.o, n |-> IF b < 0 THEN 0 ELSE e.n, p |-> 0, d |-> Flat(e.ws, e.big, e.data), got |-> << >>,
             ok |-> IF b < 0 THEN 0 ELSE 1, to |-> e.to, vis |-> e.vis, ws |-> e.ws, big |-> e.big]
      s == IF e.f = -1 THEN [x |-> x0, k |-> [n |-> 0, any |-> 0]] ELSE Skip(x0, crs[e.f])
  IN /\ pend' = [pend EXCEPT ![e.f] = s.x]
     /\ crs' = IF e.f = -1 THEN crs ELSE [crs EXCEPT ![e.f] = s.k]
     /\ UNCHANGED fn /\ Report(l, {})

OnCrd(e) ==
  LET x == pend[e.f] IN
    /\ UNCHANGED <<fn, crs>>
    /\ IF x.p >= x.n THEN UNCHANGED pend /\ Report(l, {"register_read_unasked"})
       ELSE /\ pend' = [pend EXCEPT ![e.f] = [x EXCEPT !.got = @ \o Take(e.v, x.o, x.n, x.p), !.p = @ + Bytes4(x.o, x.n, x.p)]]
            /\ Report(l, Chk(x.w = 0, "read_for_write") \cup Chk(e.reg = Reg(x.o, x.p), "wrong_register"))
OnCwr(e) ==
  LET x == pend[e.f] IN
    /\ UNCHANGED <<fn, crs>>
    /\ IF x.p >= x.n THEN UNCHANGED pend /\ Report(l, {"register_write_unasked"})
       ELSE LET k == Bytes4(x.o, x.n, x.p) la == Lane(x.o, x.p) IN
            /\ pend' = [pend EXCEPT ![e.f] = [x EXCEPT !.p = @ + k]]
            /\ Report(l, Chk(x.w = 1, "write_for_read") \cup Chk(e.reg = Reg(x.o, x.p), "wrong_register")
                         \cup Chk(e.m = Mask(Enabled(x.o, x.n, x.p)), "byte_enables")
                         \cup Chk(x.w = 0 \/ \A i \in 1..k : e.v[la + i] = x.d[x.p + i], "data_written"))
OnRet(e) ==
  LET x == pend[e.f] d == Flat(x.ws, x.big, e.data) IN
    /\ pend' = [pend EXCEPT ![e.f] = IF x.to # 0 THEN [x EXCEPT !.c = 0] ELSE None]
    /\ UNCHANGED <<fn, crs>>
    /\ Report(l, Chk(e.c = x.c, "wrong_access_returned") \cup Chk(e.ok = x.ok, IF x.ok = 1 THEN "access_failed" ELSE "absent_capability_accessed")
         \cup (IF x.ok = 0 \/ e.ok = 0 THEN {}
               ELSE IF e.f = -1 \/ x.to # 0 THEN Chk(x.w = 1 \/ (Len(d) = x.n /\ \A i \in DOMAIN d : d[i] = 255), "failure_not_all_ones")
               ELSE Chk(x.p = x.n, "access_incomplete") \cup Chk(x.w = 1 \/ d = x.got, "data_read")))

Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "topo" -> fn' = << >> /\ crs' = [f \in {x.f : x \in Range(e.fns)} |-> [n |-> 0, any |-> 0]] /\ pend' = [f \in {x.f : x \in Range(e.fns)} \cup {-1} |-> None] /\ Report(l, {})
       [] e.ev = "caps" -> fn' = (e.f :> e) @@ fn /\ UNCHANGED <<crs, pend>> /\ Report(l, {})
       [] e.ev = "retry" -> crs' = [crs EXCEPT ![e.f] = [n |-> e.n, any |-> e.any]] /\ UNCHANGED <<fn, pend>> /\ Report(l, {})
       [] e.ev = "ccall" -> OnCall(e)
       [] e.ev = "crd" -> OnCrd(e)
       [] e.ev = "cwr" -> OnCwr(e)
       [] e.ev = "cret" -> OnRet(e)
       [] e.ev = "end" -> UNCHANGED <<fn, crs, pend>> /\ Report(l, Chk(\A f \in DOMAIN pend : pend[f].c = 0, "access_never_returns"))
       [] e.ev = "crash" -> UNCHANGED <<fn, crs, pend>> /\ Report(l, {"crash_" \o e.why})
       [] OTHER -> UNCHANGED <<fn, crs, pend>> /\ Report(l, {})
  /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
=============================================================================
