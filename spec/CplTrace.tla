------------------------------ MODULE CplTrace ------------------------------
(* Completers: memory contents follow the requests in order of arrival with
   exact byte enables, and every accepted read is answered by a legal split.

   mem   byte memories            pend  (f, rid, tag) -> read being answered
   old   memories at the last comparison                                     *)
EXTENDS VF, Tlp, MemSpace

VARIABLES l, mem, old, regs, cfg, pend
vars == <<l, mem, old, regs, cfg, pend>>
Init == l = 1 /\ mem = <<>> /\ old = <<>> /\ regs = {} /\ cfg = <<>> /\ pend = <<>>

IsIo(t) == t.ty \in IoT
Key(e) == <<e.f, e.rid, e.tag>>
(* the region of node f that a request addresses, as {} or {[r, o]} *)
Hit(e) == LET h == {x \in regs : x.f = e.f /\ x.io = (IF IsIo(e) THEN 1 ELSE 0) /\ AOff(e.a, x.base, x.size) >= 0} IN
          {[r |-> x.r, o |-> AOff(e.a, x.base, x.size)] : x \in h}

ApplyWr(e) ==
  LET h == Hit(e) IN
  IF h = {} \/ ~Has(e, "by") THEN mem
  ELSE LET x == CHOOSE x \in h : TRUE
           on(i) == ByteOn(e.n, e.fb, e.lb, i)
           d(i) == e.by[i + 1]
       IN MWriteIf(mem, x.r, x.o, 4 * e.n, on, d)

(* a read being answered: s start offset within the first dword, b bytes in total *)
NewRd(e, x) ==
  IF e.ty \in MemRd
  THEN [io |-> FALSE, low |-> (e.a[4] % 4096) + FirstOff(e.fb), b |-> ByteCount(e.n, e.fb, e.lb), done |-> 0, tc |-> e.tc, at |-> e.at,
        fo |-> FirstOff(e.fb), n |-> e.n, fb |-> e.fb, lb |-> e.lb, exp |-> MRead(mem, x.r, x.o, 4 * e.n)]
  ELSE [io |-> TRUE, low |-> 0, b |-> 4, done |-> 0, tc |-> e.tc, at |-> e.at, fo |-> 0, n |-> 1, fb |-> e.fb, lb |-> 0, exp |-> MRead(mem, x.r, x.o, 4)]

(* a configuration read: the answer's form only (its data belong to the configuration space) *)
CfgRd(e) == [io |-> TRUE, low |-> 0, b |-> 4, done |-> 0, tc |-> e.tc, at |-> e.at, fo |-> 0, n |-> 1, fb |-> 0, lb |-> 0, exp |-> <<0, 0, 0, 0>>]

Rcb(f) == IF f = 0 THEN (IF cfg[0].rcb = 1 THEN 128 ELSE 64) ELSE 128

OnCplD(e) ==
  IF Key(e) \notin DOMAIN pend THEN {"cpl_unexpected"}
  ELSE
  LET p == pend[Key(e)]
      a == p.low + p.done                    \* address (within the page) of the first byte
      fin == (a % 4) + (p.b - p.done)        \* bytes from the first dword to the end of the request
      last == 4 * e.n >= fin
      put == IF last THEN p.b - p.done ELSE 4 * e.n - (a % 4)
      off == p.fo + p.done                   \* index of the first byte among the dwords of the request
  IN  Chk(e.st = 0, "cpl_status")
      \cup Chk(e.cid = cfg[e.f].id, "cpl_completer")
      \cup Chk(e.tc = p.tc, "cpl_tc") \cup Chk(e.at = p.at, "cpl_attr")
      \cup Chk(e.bc % 4096 = (p.b - p.done) % 4096 /\ e.bc <= 4096, "cpl_byte_count")
      \cup Chk(e.la = a % 128, "cpl_lower_address")
      \cup Chk(e.n >= 1 /\ e.nb = 4 * e.n, "cpl_length")
      \cup Chk(p.io \/ e.n <= MaxDw(cfg[e.f].mps), "cpl_mps")
      \cup Chk(last => e.n = (fin + 3) \div 4, "cpl_length")
      \cup Chk(last \/ (a - (a % 4) + 4 * e.n) % Rcb(e.f) = 0, "cpl_rcb")
      \cup Chk(e.ep = 0 /\ e.td = 0, "cpl_flags")
      \cup (IF ~Has(e, "by") \/ e.nb # 4 * e.n THEN {}
            ELSE Chk(\A i \in 0..(put - 1) : LET k == off + i IN
                       ByteOn(p.n, p.fb, p.lb, k) => e.by[(a % 4) + i + 1] = p.exp[k + 1], "cpl_data"))
Adv(e) ==
  LET p == pend[Key(e)] a == p.low + p.done
      done == p.done + 4 * e.n - (a % 4) IN
  IF done >= p.b THEN [k \in DOMAIN pend \ {Key(e)} |-> pend[k]] ELSE [pend EXCEPT ![Key(e)].done = done]

Diff(e) == {<<d[1], d[2], d[3]>> : d \in Range(e.ch)}
OnDiff(e) ==
  LET want == MDiff(old, mem) got == Diff(e) IN
     Chk(\A d \in got : <<d[1], d[2]>> \in {<<x[1], x[2]>> : x \in want}, "write_unselected_byte")
     \cup Chk(want \subseteq got, "write_missing_or_wrong")

Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "topo" -> mem' = <<>> /\ old' = <<>> /\ regs' = {} /\ cfg' = <<>> /\ pend' = <<>> /\ Report(l, {})
       [] e.ev = "map" -> /\ regs' = Range(e.regs)
                          /\ mem' = IF mem = <<>> THEN MNew(Range(e.regs)) ELSE mem
                          /\ old' = IF mem = <<>> THEN MNew(Range(e.regs)) ELSE old
                          /\ UNCHANGED <<cfg, pend>> /\ Report(l, {})
       [] e.ev = "hw" -> /\ cfg' = [f \in {0} \cup {x.f : x \in Range(e.fns)} |->
                                     IF f = 0 THEN [mps |-> e.rc.mps, rcb |-> e.rc.rcb, id |-> 0]
                                     ELSE LET x == CHOOSE x \in Range(e.fns) : x.f = f IN [mps |-> x.mps, rcb |-> 0, id |-> x.id]]
                         /\ UNCHANGED <<mem, old, regs, pend>> /\ Report(l, {})
       [] e.ev = "rcv" /\ mem # <<>> ->
            /\ mem' = IF e.ty \in MemWr \cup {"IOWr"} THEN ApplyWr(e) ELSE mem
            /\ pend' = IF e.ty \in MemRd \cup {"IORd"} /\ Hit(e) # {}
                       THEN (Key(e) :> NewRd(e, CHOOSE x \in Hit(e) : TRUE)) @@ pend
                       ELSE IF e.ty = "CfgRd0" /\ e.f # 0 THEN (Key(e) :> CfgRd(e)) @@ pend ELSE pend
            /\ UNCHANGED <<old, regs, cfg>>
            /\ Report(l, Chk(~(e.ty \in MemRd \cup {"IORd"} /\ Key(e) \in DOMAIN pend), "cpl_tag_reused"))
       [] e.ev = "snd" /\ mem # <<>> /\ e.ty = "CplD" ->
            /\ pend' = IF Key(e) \in DOMAIN pend THEN Adv(e) ELSE pend
            /\ UNCHANGED <<mem, old, regs, cfg>> /\ Report(l, OnCplD(e))
       [] e.ev = "snd" /\ mem # <<>> /\ e.ty = "Cpl" ->
            /\ pend' = [k \in DOMAIN pend \ {Key(e)} |-> pend[k]]
            /\ UNCHANGED <<mem, old, regs, cfg>> /\ Report(l, Chk(Key(e) \notin DOMAIN pend \/ e.st = 2, "cpl_refused"))
       [] e.ev = "diff" -> old' = mem /\ UNCHANGED <<mem, regs, cfg, pend>> /\ Report(l, OnDiff(e) \cup Chk(DOMAIN pend = {}, "cpl_missing"))
       [] e.ev = "crash" -> UNCHANGED <<mem, old, regs, cfg, pend>> /\ Report(l, {"crash_" \o e.why})
       [] OTHER -> UNCHANGED <<mem, old, regs, cfg, pend>> /\ Report(l, {})
  /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
=============================================================================
