------------------------------ MODULE UsDevTrace ------------------------------
(* Recordings of the UltraScale and UltraScale+ device models between a link
   partner and user logic.
   Events: cfg; requester side: rq (handed to the RQ stream), up (left towards
   the link), cpl (sent by the link partner), rc (delivered on the RC stream),
   seq, rqtag, lerr (status outputs); completer side: req (sent by the link
   partner), cq (delivered on the CQ stream), cc (handed to the CC stream), np,
   nphold (credits for non-posted requests), cse (configuration space enable);
   settle (nothing happened for a long time).                                 *)
EXTENDS VF, UsModel
VARIABLES l, cfg, pq, nq, act, rcq, sq, tq, ccq, icpl, cqq, np, cnt
vars == <<l, cfg, pq, nq, act, rcq, sq, tq, ccq, icpl, cqq, np, cnt>>
(* pq, nq: posted and non-posted requests not yet seen on the link, each with the number of posted requests before it
   act: per tag << >> or <<request>>;  rcq: completions due on the RC stream
   sq: [p, n: sequence numbers due]; tq: [sig: tags announced and not seen, up: seen and not announced]
   ccq: completions due on the link; icpl: completions the device owes by itself; cqq: [p, n: requests due on the CQ stream]
   np: [lo, hi: bounds of the credits, hold, cse]
   cnt: counters *)
IntTag == cfg.ct = 0
Big == 1000000
Limits(f) == IF f = "u" THEN [h |-> 64, d |-> 1024] ELSE [h |-> 256, d |-> 2048]
TagLim == IF cfg.ext = 0 THEN 32 ELSE IF cfg.fam = "u" THEN 64 ELSE 256
DCred(c) == (c.n + 3) \div 4
Fn(i) == IF i % 256 < Len(cfg.fns) THEN <<cfg.fns[(i % 256) + 1]>> ELSE << >>
Exact(i) == \E k \in DOMAIN cfg.fns : cfg.fns[k].id = i
BusOf(i) == i \div 256
T64(t, a) == IF t \in MemRdT THEN (IF <<a[1], a[2], a[3], a[4]>> = <<0, 0, 0, 0>> THEN "MEM_READ" ELSE "MEM_READ_64")
             ELSE IF t \in MemWrT THEN (IF <<a[1], a[2], a[3], a[4]>> = <<0, 0, 0, 0>> THEN "MEM_WRITE" ELSE "MEM_WRITE_64")
             ELSE t
Same(a, b, S) == \A x \in S : a[x] = b[x]

(* ------------------------------------------------------------ requester side *)
Sent(e) ==    \* what a request handed over has to look like on the link
  LET rid == IF e.rie = 1 THEN e.rid ELSE cfg.bus * 256 + (e.rid % 256) IN [e EXCEPT !.rid = rid, !.t = T64(e.t, e.a)]
Gone(e) == e.disc = 1 \/ Fn(e.rid % 8)[1].bme = 0
Rq(e) ==
  /\ IF Gone(e) THEN UNCHANGED <<pq, nq, sq>>
     ELSE LET m == [r |-> Sent(e), pb |-> cnt.p] IN
          IF e.c = "NP" THEN nq' = Append(nq, m) /\ sq' = [sq EXCEPT !.n = Append(@, e.seq % cfg.seqm)] /\ UNCHANGED pq
          ELSE pq' = Append(pq, m) /\ sq' = [sq EXCEPT !.p = Append(@, e.seq % cfg.seqm)] /\ UNCHANGED nq
  /\ cnt' = IF ~Gone(e) /\ e.c = "P" THEN [cnt EXCEPT !.p = @ + 1] ELSE cnt
  /\ UNCHANGED <<cfg, act, rcq, tq, ccq, icpl, cqq, np>> /\ Report(l, {})
ReqFields == {"t", "tc", "attr", "at", "ep", "n", "fbe", "lbe", "a", "d", "rid"}
UpP(e) ==
  /\ pq' = IF pq = << >> THEN pq ELSE Tail(pq)
  /\ cnt' = [cnt EXCEPT !.pup = @ + 1]
  /\ UNCHANGED <<cfg, nq, act, rcq, sq, tq, ccq, icpl, cqq, np>>
  /\ Report(l, IF pq = << >> THEN {"rq_posted_unexpected"} ELSE Chk(Same(pq[1].r, e, ReqFields), "rq_posted"))
UpN(e) ==
  LET t == e.tag IN
  /\ nq' = IF nq = << >> THEN nq ELSE Tail(nq)
  /\ act' = [act EXCEPT ![t] = <<e>>]
  /\ cnt' = [cnt EXCEPT !.nup = @ + 1]
  /\ tq' = IF ~IntTag THEN tq ELSE IF tq.sig # << >> THEN [tq EXCEPT !.sig = Tail(@)] ELSE [tq EXCEPT !.up = Append(@, t)]
  /\ UNCHANGED <<cfg, pq, rcq, sq, ccq, icpl, cqq, np>>
  /\ Report(l, (IF nq = << >> THEN {"rq_nonposted_unexpected"}
                ELSE Chk(Same(nq[1].r, e, ReqFields) /\ (e.t \in Cfg0T \cup Cfg1T => nq[1].r.cid = e.cid), "rq_nonposted")
                     \cup Chk(IntTag \/ nq[1].r.tag = t, "rq_client_tag")
                     \cup Chk(nq[1].pb <= cnt.pup, "rq_nonposted_passed_posted"))
             \cup Chk(act[t] = << >>, "rq_tag_reused") \cup Chk(t < (IF IntTag THEN TagLim ELSE 256), "rq_tag_range")
             \cup Chk(tq.sig = << >> \/ tq.sig[1] = t, "rq_tag_output"))
Cpl(e) ==
  IF ~Exact(e.rid) THEN UNCHANGED <<cfg, pq, nq, act, rcq, sq, tq, ccq, icpl, cqq, np, cnt>> /\ Report(l, {})
  ELSE LET v == Judge(act[e.tag], e)
           h == Len(rcq) + 1
           d == cnt.rcd + DCred(e) + 1
           lim == Limits(cfg.fam)
       IN /\ act' = IF v.free THEN [act EXCEPT ![e.tag] = << >>] ELSE act
          /\ rcq' = Append(rcq, [c |-> e, v |-> v, may |-> h > lim.h \/ d > lim.d, n |-> cnt.rcn,
                                    must |-> (h > lim.h + 12 \/ d > lim.d + 120) /\ \A i \in DOMAIN rcq : rcq[i].may => rcq[i].n = cnt.rcn])
          /\ cnt' = [cnt EXCEPT !.rcd = d]
          /\ UNCHANGED <<cfg, pq, nq, sq, tq, ccq, icpl, cqq, np>> /\ Report(l, {})
RcIs(x, e) == /\ Same(x.c, e, {"t", "tag", "rid", "cid", "tc", "attr", "ep", "n", "st", "bc", "d"})
              /\ e.err = x.v.err /\ e.la = x.v.la /\ e.rqc = x.v.rqc /\ e.disc = 0
Like(x, e) == Same(x.c, e, {"tag", "n", "bc", "d"})
RECURSIVE SumD(_)
SumD(s) == IF s = << >> THEN 0 ELSE DCred(s[1].c) + 1 + SumD(Tail(s))
Rc(e) ==
  LET k == IF rcq = << >> THEN 0
           ELSE IF Like(rcq[1], e) \/ ~rcq[1].may THEN 1
           ELSE LET S == {i \in DOMAIN rcq : Like(rcq[i], e) /\ \A j \in 1..(i - 1) : rcq[j].may} IN IF S = {} THEN 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
  IN IF k = 0 THEN UNCHANGED <<cfg, pq, nq, act, rcq, sq, tq, ccq, icpl, cqq, np, cnt>> /\ Report(l, {"rc_unexpected"})
     ELSE /\ rcq' = SubSeq(rcq, k + 1, Len(rcq))
          /\ cnt' = [cnt EXCEPT !.rcd = SumD(SubSeq(rcq, k + 1, Len(rcq))), !.drop = @ + k - 1, !.rcn = @ + 1]
          /\ UNCHANGED <<cfg, pq, nq, act, sq, tq, ccq, icpl, cqq, np>>
          /\ Report(l, Chk(Same(rcq[k].c, e, {"t", "tag", "rid", "cid", "tc", "attr", "ep", "n", "st", "bc", "d"}) /\ e.disc = 0, "rc_completion")
                       \cup Chk(e.err = rcq[k].v.err, "rc_error_code") \cup Chk(e.la = rcq[k].v.la, "rc_address") \cup Chk(e.rqc = rcq[k].v.rqc, "rc_request_completed")
                       \cup Chk(~rcq[k].must, "rc_overflow"))
SeqOut(e) ==
  LET c == IF e.v % 2 = 0 THEN "p" ELSE "n" IN
  /\ sq' = [sq EXCEPT ![c] = IF @ = << >> THEN @ ELSE Tail(@)]
  /\ cnt' = [cnt EXCEPT !.seq = @ + 1]
  /\ UNCHANGED <<cfg, pq, nq, act, rcq, tq, ccq, icpl, cqq, np>>
  /\ Report(l, Chk(~cfg.seqon \/ (sq[c] # << >> /\ sq[c][1] = e.v), "rq_seq_num"))
RqTag(e) ==
  /\ tq' = IF tq.up # << >> THEN [tq EXCEPT !.up = Tail(@)] ELSE [tq EXCEPT !.sig = Append(@, e.v)]
  /\ UNCHANGED <<cfg, pq, nq, act, rcq, sq, ccq, icpl, cqq, np, cnt>>
  /\ Report(l, Chk(tq.up = << >> \/ tq.up[1] = e.v, "rq_tag_output"))
Free == Cardinality({t \in 0..(TagLim - 1) : act[t] = << >>})

(* ------------------------------------------------------------ completer side *)
Owe(e, st) == [tag |-> e.tag, rid |-> e.rid, tc |-> e.tc, attr |-> e.attr, st |-> st]
ReqIn(e) ==
  IF e.t \in Cfg0T
  THEN /\ icpl' = icpl \cup {Owe(e, IF np.cse = 0 THEN 2 ELSE IF e.cid % 256 < Len(cfg.fns) THEN 0 ELSE 1)}
       /\ cfg' = IF np.cse = 0 THEN cfg ELSE [cfg EXCEPT !.bus = BusOf(e.cid), !.fns = [k \in DOMAIN @ |-> [@[k] EXCEPT !.id = 256 * BusOf(e.cid) + k - 1]]]
       /\ UNCHANGED <<cqq, cnt>>
  ELSE IF e.t \in Cfg1T THEN icpl' = icpl \cup {Owe(e, 1)} /\ UNCHANGED <<cfg, cqq, cnt>>
  ELSE LET h == BarHit(cfg.fns, e.a, IF e.t \in IoRT THEN 1 ELSE 0) IN
       IF h = << >> THEN icpl' = (IF e.t \in MemWrT THEN icpl ELSE icpl \cup {Owe(e, 1)}) /\ UNCHANGED <<cfg, cqq, cnt>>
       ELSE LET m == [r |-> [e EXCEPT !.t = T64(e.t, e.a)], h |-> h, pb |-> cnt.cp] IN
            /\ cqq' = IF e.c = "NP" THEN [cqq EXCEPT !.n = Append(@, m)] ELSE [cqq EXCEPT !.p = Append(@, m)]
            /\ cnt' = IF e.c = "NP" THEN cnt ELSE [cnt EXCEPT !.cp = @ + 1]
            /\ UNCHANGED <<cfg, icpl>>
Cq(e) ==
  LET q == IF e.c = "NP" THEN cqq.n ELSE cqq.p
      m == q[1] IN
  IF q = << >> THEN UNCHANGED <<cfg, pq, nq, act, rcq, sq, tq, ccq, icpl, cqq, np, cnt>> /\ Report(l, {"cq_unexpected"})
  ELSE /\ cqq' = IF e.c = "NP" THEN [cqq EXCEPT !.n = Tail(@)] ELSE [cqq EXCEPT !.p = Tail(@)]
       /\ np' = IF e.c = "NP" THEN [np EXCEPT !.lo = Max(@ - 1, 0), !.hi = @ - 1] ELSE np
       /\ cnt' = IF e.c = "NP" THEN cnt ELSE [cnt EXCEPT !.cup = @ + 1]
       /\ UNCHANGED <<cfg, pq, nq, act, rcq, sq, tq, ccq, icpl>>
       /\ Report(l, Chk(Same(m.r, e, {"t", "n", "rid", "tc", "attr", "at", "a", "fbe", "lbe", "d"}) /\ e.tag = m.r.tag % 256 /\ e.disc = 0, "cq_request")
                    \cup Chk(e.cid % 256 = m.h[1] /\ e.bar = m.h[2], "cq_function_bar") \cup Chk(e.ap = m.h[3], "cq_aperture")
                    \cup Chk(e.c # "NP" \/ np.hold = 1 \/ np.hi > 0, "cq_without_credit")
                    \cup Chk(e.c # "NP" \/ m.pb <= cnt.cup, "cq_nonposted_passed_posted"))
UpC(e) ==
  LET S == {x \in icpl : x.tag = e.tag /\ x.rid = e.rid} IN
  IF S # {}
  THEN LET x == CHOOSE y \in S : TRUE IN
       /\ icpl' = icpl \ {x} /\ UNCHANGED <<cfg, pq, nq, act, rcq, sq, tq, ccq, cqq, np, cnt>>
       /\ Report(l, Chk(e.st = x.st /\ e.tc = x.tc /\ e.attr = x.attr /\ (x.st # 0 => e.n = 0 /\ e.t = "CPL"), "own_completion"))
  ELSE IF ccq = << >> THEN UNCHANGED <<cfg, pq, nq, act, rcq, sq, tq, ccq, icpl, cqq, np, cnt>> /\ Report(l, {"cc_unexpected"})
  ELSE /\ ccq' = Tail(ccq) /\ UNCHANGED <<cfg, pq, nq, act, rcq, sq, tq, icpl, cqq, np, cnt>>
       /\ Report(l, Chk(Same(ccq[1], e, {"t", "st", "bc", "la", "n", "ep", "tag", "rid", "cid", "tc", "attr", "d"}), "cc_completion"))

Keep == UNCHANGED <<cfg, pq, nq, act, rcq, sq, tq, ccq, icpl, cqq, np, cnt>>
Settle(e) ==
  LET hasav == Has(e, "pcie_rq_tag_av")
      hasnp == Has(e, "pcie_cq_np_req_count") IN
  /\ rcq' = IF e.p.rc = 0 THEN << >> ELSE rcq
  /\ cnt' = IF e.p.rc = 0 THEN [cnt EXCEPT !.rcd = 0, !.drop = 0, !.lerr = 0] ELSE cnt
  /\ UNCHANGED <<cfg, pq, nq, act, sq, tq, ccq, icpl, cqq, np>>
  /\ Report(l,
       Chk(e.p.rq # 0 \/ Len(nq) > 16 \/ pq = << >>, "rq_posted_stuck")
       \cup Chk(e.p.rq # 0 \/ nq = << >> \/ (IntTag /\ Free = 0), "rq_nonposted_stuck")
       \cup Chk(e.p.rc # 0 \/ \A i \in DOMAIN rcq : rcq[i].may, "rc_lost")
       \cup Chk(e.p.rc # 0 \/ LET k == cnt.drop + Len(rcq) IN IF cfg.fam = "p" THEN cnt.lerr = k ELSE (cnt.lerr > 0) = (k > 0), "rc_overflow_report")
       \cup Chk(~cfg.seqon \/ cnt.seq = cnt.pup + cnt.nup, "rq_seq_num_missing")
       \cup Chk(~cfg.tagon \/ tq = [sig |-> << >>, up |-> << >>], "rq_tag_output_missing")
       \cup Chk(~(IntTag /\ hasav) \/ e.pcie_rq_tag_av = Min(IF cfg.fam = "u" THEN 3 ELSE 15, Free), "rq_tag_available")
       \cup Chk(e.p.cq # 0 \/ cqq.p = << >>, "cq_posted_stuck")
       \cup Chk(e.p.cq # 0 \/ cqq.n = << >> \/ (np.hold = 0 /\ np.lo = 0), "cq_nonposted_stuck")
       \cup Chk(~hasnp \/ np.hold = 1 \/ e.p.cq # 0 \/ (np.lo <= e.pcie_cq_np_req_count /\ e.pcie_cq_np_req_count <= np.hi), "cq_credit_count")
       \cup Chk(~hasnp \/ np.hold = 0 \/ e.p.cq # 0 \/ e.pcie_cq_np_req_count = 32, "cq_credit_count")
       \cup Chk(e.p.cc # 0 \/ ccq = << >>, "cc_stuck")
       \cup Chk(icpl = {}, "own_completion_missing"))
Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "cfg" ->
            /\ cfg' = e /\ pq' = << >> /\ nq' = << >> /\ act' = [t \in 0..255 |-> << >>] /\ rcq' = << >> /\ sq' = [p |-> << >>, n |-> << >>]
            /\ tq' = [sig |-> << >>, up |-> << >>] /\ ccq' = << >> /\ icpl' = {} /\ cqq' = [p |-> << >>, n |-> << >>]
            /\ np' = [lo |-> 32 * e.np, hi |-> 32 * e.np, hold |-> e.np, cse |-> 1]
            /\ cnt' = [p |-> 0, rcn |-> 0, pup |-> 0, nup |-> 0, rcd |-> 0, drop |-> 0, lerr |-> 0, seq |-> 0, cp |-> 0, cup |-> 0] /\ Report(l, {})
       [] e.ev = "rq" -> Rq(e)
       [] e.ev = "up" -> IF e.c = "P" THEN UpP(e) ELSE IF e.c = "NP" THEN UpN(e) ELSE UpC(e)
       [] e.ev = "cpl" -> Cpl(e)
       [] e.ev = "rc" -> Rc(e)
       [] e.ev = "seq" -> SeqOut(e)
       [] e.ev = "rqtag" -> RqTag(e)
       [] e.ev = "lerr" -> cnt' = [cnt EXCEPT !.lerr = @ + 1] /\ UNCHANGED <<cfg, pq, nq, act, rcq, sq, tq, ccq, icpl, cqq, np>> /\ Report(l, Chk(cfg.fam = "u" \/ e.v = 15, "local_error_code"))
       [] e.ev = "req" -> ReqIn(e) /\ UNCHANGED <<pq, nq, act, rcq, sq, tq, ccq, np>> /\ Report(l, {})
       [] e.ev = "cq" -> Cq(e)
       [] e.ev = "cc" -> /\ ccq' = IF e.disc = 1 THEN ccq ELSE Append(ccq, IF e.cie = 1 THEN e ELSE [e EXCEPT !.cid = 256 * cfg.bus + (@ % 256)])
                         /\ UNCHANGED <<cfg, pq, nq, act, rcq, sq, tq, icpl, cqq, np, cnt>> /\ Report(l, {})
       [] e.ev = "np" -> /\ np' = IF e.v = 0 THEN np ELSE [np EXCEPT !.lo = Min(@ + 1, 32), !.hi = Min(@ + 1, 32 + Len(cqq.n))]
                         /\ UNCHANGED <<cfg, pq, nq, act, rcq, sq, tq, ccq, icpl, cqq, cnt>> /\ Report(l, {})
       [] e.ev = "nphold" -> /\ np' = [np EXCEPT !.hold = e.v, !.lo = IF e.v = 0 THEN 32 ELSE @, !.hi = IF e.v = 0 THEN 32 ELSE @]
                             /\ UNCHANGED <<cfg, pq, nq, act, rcq, sq, tq, ccq, icpl, cqq, cnt>> /\ Report(l, {})
       [] e.ev = "cse" -> np' = [np EXCEPT !.cse = e.v] /\ UNCHANGED <<cfg, pq, nq, act, rcq, sq, tq, ccq, icpl, cqq, cnt>> /\ Report(l, {})
       [] e.ev = "settle" -> Settle(e)
       [] e.ev = "crash" -> Keep /\ Report(l, {"crash_" \o e.why})
       [] OTHER -> Keep /\ Report(l, {})
  /\ l' = l + 1
Init == /\ l = 1 /\ cfg = << >> /\ pq = << >> /\ nq = << >> /\ act = << >> /\ rcq = << >> /\ sq = << >> /\ tq = << >> /\ ccq = << >> /\ icpl = {} /\ cqq = << >>
        /\ np = << >> /\ cnt = << >>
TraceSpec == Init /\ [][Next]_vars
=============================================================================
