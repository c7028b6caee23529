------------------------------ MODULE TxnTrace ------------------------------
(* Transactions: every outstanding non-posted request has its own tag, gets
   exactly one answer of the right kind from the right place, and hands it to
   its caller.
   out   <<f, tag>> -> [e request, d destination, tot, got, dg]   outstanding
   done  <<f, tag>> -> digests of the completions of the last request finished
   zomb  requests abandoned by their caller (time-out): their answers may still come
   crs   functions that answer the next reads of their first register with retry status
   calls c -> to                                                           *)
EXTENDS VF, Fabric

VARIABLES l, tp, hw, mp, rt, out, done, zomb, calls, crs
vars == <<l, tp, hw, mp, rt, out, done, zomb, calls, crs>>
fab == <<tp, hw, mp, rt>>
Init == l = 1 /\ tp = <<>> /\ hw = <<>> /\ mp = <<>> /\ rt = <<>> /\ out = <<>> /\ done = <<>> /\ zomb = {} /\ calls = <<>> /\ crs = <<>>

Upd(t, h, m) == IF t = <<>> \/ h = <<>> \/ m = <<>> THEN <<>> ELSE Routes(t, h, m)
Key(e) == <<e.f, e.tag>>
Dig(e) == <<e.hd, e.dg>>
Drop(fn, k) == [x \in DOMAIN fn \ {k} |-> fn[x]]

Limit(f) == IF f = 0 THEN Min(256, hw.rc.tags)
            ELSE Min(IF HwOf(hw, f).ete = 1 THEN 256 ELSE 32, Fn(tp, f).lim)

OnReq(e) ==
  Chk(Key(e) \notin DOMAIN out, "tag_shared")
  \cup Chk(e.tag < Limit(e.f), "tag_range")
  \cup Chk(e.rid = (IF e.f = 0 THEN 0 ELSE rt.idof[e.f]), "rid_foreign")
Req(e) == (Key(e) :> [e |-> e, d |-> Dest(rt, e), ret |-> FALSE, tot |-> IF e.ty \in MemRd THEN ByteCount(e.n, e.fb, e.lb) ELSE 0, got |-> 0, dg |-> <<>>]) @@ out

Bytes(e) == e.nb - (e.la % 4)
Fin(r, e) == e.st # 0 \/ r.e.ty \notin MemRd \/ e.ty = "Cpl" \/ r.got + Bytes(e) >= r.tot
Root(r) == {b \in {x \in DOMAIN rt.win : rt.up[x] = 0} : Covers(rt, b, r)} # {}
(* an address no root port claims is looked up in the host's own address map, whose
   failures are completer aborts and where an access to no byte at all cannot fail *)
Hosted(r) == r.ty \notin CfgT /\ ~Root(r)

(* which refusals are right: what nothing claims is unsupported, what is mapped at the
   host but fails there is a completer abort *)
End(b) == AMinus(APlus(b.base, b.size), <<0, 0, 0, 1>>)
Last(r) == APlus(r.a, <<0, 0, 0, 4 * r.n - 1>>)
Io(r) == IF r.ty \in IoT THEN 1 ELSE 0
Broken(r) == \E b \in Rng(tp.bad) : b.io = Io(r) /\ AIn(r.a, b.base, End(b)) /\ AIn(Last(r), b.base, End(b))
(* what the host has mapped: its own regions, broken ones, its message region, the windows of the hierarchy,
   and the pools it takes its own regions from *)
Mapped(r) == {<<b.base, End(b)>> : b \in {x \in Rng(tp.host) \cup Rng(tp.bad) : x.io = Io(r)}}
             \cup {<<<<0, 0, 0, 0>>, <<0, 0, 32767, 65535>>>>}
             \cup (IF Io(r) = 1 THEN {<<<<0, 0, 32768, 0>>, <<0, 0, 65535, 65535>>>>}
                   ELSE {<<<<0, 0, 32768, 0>>, <<0, 0, 32768, 4095>>>>, <<<<0, 0, 49152, 0>>, <<0, 0, 65535, 65535>>>>, <<<<32768, 0, 0, 0>>, <<65535, 65535, 65535, 65535>>>>})
Unmapped(r) == \A x \in Mapped(r) : ALt(Last(r), x[1]) \/ ALt(x[2], r.a)
Refusals(r) == IF ~Hosted(r) \/ r.f = 0 THEN {1} ELSE IF Broken(r) THEN {4} ELSE IF Unmapped(r) THEN {1} ELSE {1, 4}

OnCpl(e) ==
  IF Key(e) \notin DOMAIN out THEN Chk(Key(e) \in zomb, "answer_without_request")
  ELSE LET r == out[Key(e)] IN
    IF r.ret \/ e.st = 2 THEN Chk(r.ret /\ e.st = 2 /\ e.ty = "Cpl" /\ e.cid = rt.idof[r.d], "answer_retry")
    ELSE IF e.st # 0
    THEN Chk(r.d = -1, "answer_refused")
         \cup Chk(r.d # -1 \/ e.st \in Refusals(r.e), "answer_status")
         \cup Chk(e.ty = "Cpl" /\ r.got = 0, "answer_type")
    ELSE Chk(r.d # -1 \/ (Hosted(r.e) /\ r.e.n = 1 /\ r.e.fb = 0), "answer_invented")
         \cup Chk(e.ty = (IF r.e.ty \in MemRd \cup {"IORd", "CfgRd0", "CfgRd1"} THEN "CplD" ELSE "Cpl"), "answer_type")
         \cup Chk(r.d = -1 \/ e.cid = (IF r.d = 0 THEN 0 ELSE rt.idof[r.d]), "answer_from_wrong_function")
         \cup Chk(r.e.ty \notin MemRd \/ Bytes(e) <= r.tot - r.got + 3, "answer_too_long")
         \cup Chk(e.tc = r.e.tc /\ e.at = r.e.at, "answer_attributes")
Cpl(e) == IF Key(e) \notin DOMAIN out THEN out
          ELSE LET r == out[Key(e)] IN
               IF Fin(r, e) THEN Drop(out, Key(e))
               ELSE [out EXCEPT ![Key(e)].got = @ + Bytes(e), ![Key(e)].dg = Append(@, Dig(e))]
DoneOf(e) == IF Key(e) \in DOMAIN out /\ Fin(out[Key(e)], e) THEN (Key(e) :> Append(out[Key(e)].dg, Dig(e))) @@ done ELSE done

(* what the caller got is exactly what came for its request *)
OnRawRet(e) ==
  LET got == [i \in DOMAIN e.cpl |-> <<e.cpl[i].hd, e.cpl[i].dg>>] k == <<e.f, e.tag>> IN
  IF k \in DOMAIN out
  THEN Chk(calls[e.c] # 0, "returned_early") \cup Chk(got = out[k].dg, "result_from_other_completions")
  ELSE Chk(k \in DOMAIN done /\ got = done[k], "result_from_other_completions")

(* a read of the first register that reaches a function which is not ready *)
Retries(e) == e.ty = "CfgRd0" /\ e.a = <<0, 0, 0, 0>> /\ e.f \in DOMAIN crs /\ crs[e.f] > 0 /\ <<0, e.tag>> \in DOMAIN out

Skip == UNCHANGED <<out, done, zomb, calls, crs>>
Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "topo" -> tp' = e /\ hw' = <<>> /\ mp' = <<>> /\ rt' = <<>> /\ out' = <<>> /\ done' = <<>> /\ zomb' = {} /\ calls' = <<>> /\ crs' = <<>> /\ Report(l, {})
       [] e.ev = "hw" -> hw' = e /\ rt' = Upd(tp, e, mp) /\ UNCHANGED <<tp, mp>> /\ Skip /\ Report(l, {})
       [] e.ev = "map" -> mp' = e /\ rt' = Upd(tp, hw, e) /\ UNCHANGED <<tp, hw>> /\ Skip /\ Report(l, {})
       [] e.ev = "snd" /\ rt # <<>> /\ e.ty \in NonPosted ->
            out' = Req(e) /\ zomb' = zomb \ {Key(e)} /\ UNCHANGED <<tp, hw, mp, rt, done, calls, crs>> /\ Report(l, OnReq(e))
       [] e.ev = "rcv" /\ rt # <<>> /\ e.ty \in CplT ->
            out' = Cpl(e) /\ done' = DoneOf(e) /\ UNCHANGED <<tp, hw, mp, rt, zomb, calls, crs>> /\ Report(l, OnCpl(e))
       [] e.ev = "retry" -> crs' = (e.f :> e.n) @@ crs /\ UNCHANGED <<tp, hw, mp, rt, out, done, zomb, calls>> /\ Report(l, {})
       [] e.ev = "rcv" /\ rt # <<>> /\ Retries(e) ->
            crs' = [crs EXCEPT ![e.f] = @ - 1] /\ out' = [out EXCEPT ![<<0, e.tag>>].ret = TRUE] /\ UNCHANGED <<tp, hw, mp, rt, done, zomb, calls>> /\ Report(l, {})
       [] e.ev = "raw" /\ e.np = 1 -> calls' = (e.c :> e.to) @@ calls /\ UNCHANGED <<tp, hw, mp, rt, out, done, zomb, crs>> /\ Report(l, {})
       [] e.ev = "rawret" -> /\ calls' = Drop(calls, e.c)
                             /\ zomb' = IF <<e.f, e.tag>> \in DOMAIN out THEN zomb \cup {<<e.f, e.tag>>} ELSE zomb
                             /\ out' = Drop(out, <<e.f, e.tag>>)
                             /\ UNCHANGED <<tp, hw, mp, rt, done, crs>> /\ Report(l, OnRawRet(e))
       [] e.ev = "call" -> calls' = (e.c :> e.to) @@ calls /\ UNCHANGED <<tp, hw, mp, rt, out, done, zomb, crs>> /\ Report(l, {})
       [] e.ev = "ret" -> calls' = Drop(calls, e.c) /\ UNCHANGED <<tp, hw, mp, rt, out, done, zomb, crs>> /\ Report(l, {})
       [] e.ev = "end" -> UNCHANGED <<tp, hw, mp, rt>> /\ Skip
                          /\ Report(l, Chk(out = <<>>, "unanswered") \cup Chk(calls = <<>>, "stalled"))
       [] e.ev = "crash" -> UNCHANGED <<tp, hw, mp, rt>> /\ Skip /\ Report(l, {"crash_" \o e.why})
       [] OTHER -> UNCHANGED <<tp, hw, mp, rt>> /\ Skip /\ Report(l, {})
  /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
=============================================================================
