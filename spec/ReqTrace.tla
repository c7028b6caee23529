------------------------------ MODULE ReqTrace ------------------------------
(* Every memory and I/O request generated for a public access is well formed,
   and the requests of one access tile exactly its bytes, in ascending order.

   state: acc   c -> [f, w, io, a, n, done]   accesses in progress
          cfg   f -> [mps, mrrs]              settings in force                *)
EXTENDS VF, Tlp

VARIABLES l, acc, cfg, map
vars == <<l, acc, cfg, map>>

Init == l = 1 /\ acc = <<>> /\ cfg = <<>> /\ map = <<>>

Kind(t) == [io |-> IF t.ty \in IoT THEN 1 ELSE 0, w |-> IF t.ty \in {"MWr", "MWr64", "IOWr"} THEN 1 ELSE 0]
StartOf(t) == AAdd(t.a, FirstOff(t.fb))
LenOf(t) == IF t.n = 1 /\ t.fb = 0 THEN 0 ELSE ByteCount(t.n, t.fb, t.lb)

(* where access x must continue *)
NextA(x) == AAdd(x.a, x.done)

Cand(e) == {c \in DOMAIN acc : /\ acc[c].f = e.f /\ acc[c].io = Kind(e).io /\ acc[c].w = Kind(e).w
                               /\ acc[c].open
                               /\ IF acc[c].n = 0
                                  THEN /\ e.n = 1 /\ e.fb = 0 /\ e.a = [acc[c].a EXCEPT ![4] = @ - (@ % 4)]
                                  ELSE e.fb # 0 /\ NextA(acc[c]) = StartOf(e) /\ acc[c].done < acc[c].n}

(* a request may stop short of the end of the access only where a limit forces it to *)
Forced(e, x, len) ==
  \/ x.done + len = x.n
  \/ e.ty \in IoT /\ Low(AAdd(StartOf(e), len), 4) = 0
  \/ Low(AAdd(StartOf(e), len), 4096) = 0
  \/ e.ty \in MemWr /\ e.n = MaxDw(cfg[e.f].mps)
  \/ e.ty \in MemRd /\ (e.n = MaxDw(cfg[e.f].mrrs) \/ (Low(AAdd(StartOf(e), len), 128) = 0 /\ e.n > MaxDw(cfg[e.f].mrrs) - 32))

(* payload of a write request: the bytes of the access, in place *)
Payload(e, x, len) ==
  ~Has(e, "by") \/ e.ty \notin MemWr \cup {"IOWr"} \/ x.n = 0
  \/ \A i \in 0..(len - 1) : e.by[FirstOff(e.fb) + i + 1] = x.data[x.done + i + 1]

OnSnd(e) ==
  IF e.ty \notin Mem \cup IoT THEN {}
  ELSE
  LET cs == Cand(e) len == LenOf(e) IN
    Chk(ReqForm(e), "req_form")
    \cup (IF e.ty \in Mem THEN Chk(No4K(e), "req_4k") ELSE {})
    \cup Chk(BeRules(e), "req_be")
    \cup Chk(SizeOk(e, cfg[e.f].mps, cfg[e.f].mrrs), "req_size")
    \cup Chk(cs # {}, "req_cover")
    \cup (IF cs = {} THEN {} ELSE
          LET x == acc[CHOOSE c \in cs : TRUE] IN
            Chk(x.done + len <= x.n, "req_overrun")
            \cup Chk(x.done + len > x.n \/ Forced(e, x, len), "req_minimal")
            \cup Chk(x.done + len > x.n \/ Payload(e, x, len), "req_payload")
            \cup Chk(e.ty \in IoT \/ (e.at = x.at /\ e.tc = x.tc), "req_attr")
            \cup Chk(e.ep = 0 /\ e.td = 0, "req_flags"))

OnRet(e) ==
  LET x == acc[e.c] IN
    Chk(e.ok = 0 \/ (IF x.n = 0 THEN ~x.open ELSE x.done = x.n), "req_incomplete")

Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "topo" -> /\ acc' = <<>> /\ cfg' = <<>> /\ map' = <<>> /\ Report(l, {})
       [] e.ev = "hw" -> /\ cfg' = [f \in {0} \cup {x.f : x \in Range(e.fns)} |->
                                     IF f = 0 THEN [mps |-> e.rc.mps, mrrs |-> e.rc.mrrs, id |-> 0]
                                     ELSE LET x == CHOOSE x \in Range(e.fns) : x.f = f IN [mps |-> x.mps, mrrs |-> x.mrrs, id |-> x.id]]
                         /\ UNCHANGED <<acc, map>> /\ Report(l, {})
       [] e.ev = "call" -> /\ acc' = acc @@ (e.c :> [f |-> e.f, w |-> e.w, io |-> e.io, a |-> e.a, n |-> e.n, data |-> e.data, done |-> 0,
                                                     open |-> TRUE, at |-> e.at, tc |-> e.tc])
                           /\ UNCHANGED <<cfg, map>> /\ Report(l, {})
       [] e.ev = "ret" -> /\ acc' = [c \in DOMAIN acc \ {e.c} |-> acc[c]] /\ UNCHANGED <<cfg, map>> /\ Report(l, OnRet(e))
       [] e.ev = "snd" /\ DOMAIN cfg # {} ->
            LET cs == IF e.ty \in Mem \cup IoT THEN Cand(e) ELSE {} IN
            /\ acc' = IF cs = {} THEN acc
                      ELSE LET c == CHOOSE c \in cs : TRUE IN
                           [acc EXCEPT ![c].done = IF acc[c].n = 0 THEN 0 ELSE Min(@ + LenOf(e), acc[c].n),
                                       ![c].open = acc[c].n # 0 /\ acc[c].done + LenOf(e) < acc[c].n]
            /\ UNCHANGED <<cfg, map>>
            /\ Report(l, OnSnd(e) \cup Chk(e.ty \in CplT \/ e.ty \in CfgT \/ e.rid = cfg[e.f].id, "req_rid"))
       [] e.ev = "crash" -> /\ UNCHANGED <<acc, cfg, map>> /\ Report(l, {"crash_" \o e.why})
       [] OTHER -> UNCHANGED <<acc, cfg, map>> /\ Report(l, {})
  /\ l' = l + 1

TraceSpec == Init /\ [][Next]_vars
=============================================================================
