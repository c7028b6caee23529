------------------------------ MODULE MsiTrace ------------------------------
(* Interrupts of a recorded run against Msi.  A vector is known by its message
   number; `due` counts the messages a vector should have sent.
   fns     functions and what they offer        alloc/free  host calls and the registers afterwards
   sig     a function signals vector k          mask/pend   per-vector mask written, pending bits read
   req     a handler is registered              msg/irq/evt message at the host, handler run, event seen
   quiet   everything has been delivered                                                             *)
EXTENDS VF, Msi
VARIABLES l, fn, st, due, msgs, evts, seen, hs
vars == <<l, fn, st, due, msgs, evts, seen, hs>>
\* st[f]: [mode, mme, vecs (sequence of <<address limbs, data>>), mask, pend];  hs[h]: [d (vector), base (messages seen when registered), n (runs)]
Init == l = 1 /\ fn = << >> /\ st = << >> /\ due = << >> /\ msgs = << >> /\ evts = << >> /\ seen = << >> /\ hs = << >>
At(b, x) == IF x \in DOMAIN b THEN b[x] ELSE 0
Put(b, x, n) == [y \in DOMAIN b \cup {x} |-> IF y = x THEN At(b, x) + n ELSE b[y]]
RECURSIVE PutAll(_, _)
PutAll(b, s) == IF s = {} THEN b ELSE LET x == CHOOSE x \in s : TRUE IN PutAll(Put(b, x, 1), s \ {x})

New(e) == [f \in {x.f : x \in Range(e.fns)} |-> [mode |-> "off", mme |-> 0, vecs |-> <<>>, mask |-> {}, pend |-> {}]]
Key(f, k) == st[f].vecs[k + 1]
NMsi(f) == IF fn[f].msi THEN 2^fn[f].mmc ELSE 0
NMsix(f) == fn[f].nx
TryX(e) == IF st[e.f].mode # "off" THEN -1 ELSE Count(NMsix(e.f), e.lo, e.hi)
TryM(e) == IF st[e.f].mode # "off" THEN -1 ELSE Count(NMsi(e.f), e.lo, e.hi)
Want(e) == CASE e.api = "msix" -> [m |-> "msix", n |-> TryX(e)]
             [] e.api = "msi" -> [m |-> "msi", n |-> TryM(e)]
             [] OTHER -> IF TryX(e) > 0 THEN [m |-> "msix", n |-> TryX(e)] ELSE [m |-> "msi", n |-> TryM(e)]
Vecs(v) == [i \in DOMAIN v |-> <<v[i][1], v[i][2]>>]
Others(f) == UNION {Range(st[g].vecs) : g \in DOMAIN st \ {f}}
Ready(s, f, m) ==          \* pending vectors that may be sent
  {k \in s.pend : k < 2^MinI(m, fn[f].mmc) /\ ~(fn[f].pvm /\ k \in s.mask)}
Enabled(e) == [mode |-> Want(e).m, mme |-> e.msi.mme, vecs |-> Vecs(e.vecs), mask |-> st[e.f].mask, pend |-> st[e.f].pend]

AllocChk(e) ==
  LET w == Want(e)
      v == Vecs(e.vecs) IN
  Chk(e.rc = w.n, "vector_count")
  \cup (IF w.n <= 0 THEN Chk(v = st[e.f].vecs, "vectors_changed")
        ELSE Chk(Len(v) >= w.n /\ Cardinality(Range(v)) = Len(v), "vectors_not_distinct")
             \cup Chk(Range(v) \cap Others(e.f) = {}, "vectors_shared")
             \cup (IF w.m = "msi" THEN
                     Chk(e.msi.en = 1 /\ e.msix.en = 0, "interrupt_enable")
                     \cup Chk(2^e.msi.mme >= w.n /\ e.msi.mme <= fn[e.f].mmc, "messages_enabled")
                     \cup Chk(e.msi.data < 65536 /\ \A k \in 0..(2^MinI(e.msi.mme, fn[e.f].mmc) - 1) :
                               k < Len(v) /\ v[k + 1] = <<e.msi.a, Message(e.msi.data, e.msi.mme, k)>>, "message_registers")
                   ELSE Chk(e.msix.en = 1 /\ e.msix.fm = 0 /\ e.msi.en = 0, "interrupt_enable")
                     \cup Chk(\A k \in 1..w.n : e.msix.table[k] = <<v[k][1], v[k][2], 0>>, "message_table")))

Sends(e) == /\ st[e.f].mode = e.api
            /\ IF e.api = "msi" THEN e.k < 2^MinI(st[e.f].mme, fn[e.f].mmc) ELSE TRUE
Masked(e) == e.api = "msi" /\ fn[e.f].pvm /\ e.k \in st[e.f].mask

(* a function being enabled may send what was pending before the host is told; counted at the next quiet point *)
Waking == \E f \in DOMAIN st : st[f].mode = "off" /\ st[f].pend \ st[f].mask # {}

Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "fns" -> /\ fn' = [f \in {x.f : x \in Range(e.fns)} |-> CHOOSE x \in Range(e.fns) : x.f = f] /\ st' = New(e)
                          /\ due' = << >> /\ msgs' = << >> /\ evts' = << >> /\ seen' = << >> /\ hs' = << >> /\ Report(l, {})
       [] e.ev = "alloc" ->
            /\ IF Want(e).n > 0 /\ e.rc > 0
               THEN LET s == Enabled(e)
                        go == IF s.mode = "msi" THEN Ready(s, e.f, e.msi.mme) ELSE {} IN
                    /\ st' = [st EXCEPT ![e.f] = [s EXCEPT !.pend = @ \ go]]
                    /\ due' = PutAll(due, {Vecs(e.vecs)[k + 1] : k \in {k \in go : k < Len(e.vecs)}})
               ELSE UNCHANGED <<st, due>>
            /\ UNCHANGED <<fn, msgs, evts, seen, hs>> /\ Report(l, AllocChk(e))
       [] e.ev = "free" ->
            /\ st' = [st EXCEPT ![e.f].mode = "off"] /\ UNCHANGED <<fn, due, msgs, evts, seen, hs>>
            /\ Report(l, Chk(e.msi.en = 0 /\ e.msix.en = 0, "interrupt_enable"))
       [] e.ev = "req" ->
            /\ hs' = (e.h :> [d |-> Key(e.f, e.k), base |-> At(msgs, Key(e.f, e.k)), n |-> 0]) @@ hs
            /\ UNCHANGED <<fn, st, due, msgs, evts, seen>> /\ Report(l, {})
       [] e.ev = "sig" ->      \* logged when the call is made; e.ok tells whether it was accepted
            /\ IF Sends(e) /\ Masked(e) THEN st' = [st EXCEPT ![e.f].pend = @ \cup {e.k}] /\ UNCHANGED due
               ELSE IF Sends(e) THEN due' = Put(due, Key(e.f, e.k), 1) /\ UNCHANGED st
               ELSE UNCHANGED <<st, due>>
            /\ UNCHANGED <<fn, msgs, evts, seen, hs>> /\ Report(l, {})
       [] e.ev = "sigret" -> UNCHANGED <<fn, st, due, msgs, evts, seen, hs>>
            /\ Report(l, Chk((e.ok = 1) <=> Sends(e), "signal_accepted"))
       [] e.ev = "mask" ->
            LET f == e.f
                m == Range(e.m)
                s == [st[f] EXCEPT !.mask = m]
                go == IF s.mode = "msi" THEN Ready(s, f, s.mme) ELSE {} IN
            /\ st' = [st EXCEPT ![f] = [s EXCEPT !.pend = @ \ go]]
            /\ due' = PutAll(due, {Key(f, k) : k \in go})
            /\ UNCHANGED <<fn, msgs, evts, seen, hs>> /\ Report(l, {})
       [] e.ev = "pend" -> UNCHANGED <<fn, st, due, msgs, evts, seen, hs>> /\ Report(l, Chk(Range(e.m) = st[e.f].pend, "pending_bits"))
       [] e.ev = "msg" ->
            /\ msgs' = Put(msgs, <<e.a, e.d>>, 1) /\ UNCHANGED <<fn, st, due, evts, seen, hs>>
            /\ Report(l, Chk(Waking \/ At(msgs', <<e.a, e.d>>) <= At(due, <<e.a, e.d>>), "message_unexpected") \cup Chk(e.n = 4, "message_length"))
       [] e.ev = "irq" ->
            /\ hs' = [hs EXCEPT ![e.h].n = @ + 1] /\ UNCHANGED <<fn, st, due, msgs, evts, seen>>
            /\ Report(l, Chk(hs[e.h].n < At(msgs, hs[e.h].d) - hs[e.h].base, "handler_unexpected"))
       [] e.ev = "evt" ->
            /\ evts' = Put(evts, <<e.a, e.d>>, 1) /\ UNCHANGED <<fn, st, due, msgs, seen, hs>>
            /\ Report(l, Chk(At(evts', <<e.a, e.d>>) <= At(msgs, <<e.a, e.d>>), "event_unexpected"))
       [] e.ev = "quiet" ->
            /\ seen' = due /\ evts' = due
            /\ UNCHANGED <<fn, st, due, msgs, hs>>
            /\ Report(l, Chk(\A d \in DOMAIN due : At(msgs, d) = due[d], "message_lost")
                         \cup Chk(\A h \in DOMAIN hs : hs[h].n = At(due, hs[h].d) - hs[h].base, "handler_count")
                         \cup (IF e.lazy THEN Chk(Range(Vecs(e.set)) = {d \in DOMAIN due : due[d] > At(seen, d)}, "event_set")
                            ELSE Chk(\A d \in DOMAIN due : due[d] > At(seen, d) => At(evts, d) > At(seen, d), "event_lost")))
       [] e.ev = "crash" -> UNCHANGED <<fn, st, due, msgs, evts, seen, hs>> /\ Report(l, {"crash_" \o e.why})
       [] OTHER -> UNCHANGED <<fn, st, due, msgs, evts, seen, hs>> /\ Report(l, {})
  /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
=============================================================================
