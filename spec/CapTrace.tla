------------------------------ MODULE CapTrace ------------------------------
(* Recorded registrations and configuration space contents of real functions.
   Events: new (a function, capabilities it was created with), reg, del,
   walk (the lists as read by configuration reads, and every register),
   host (the lists as the host discovered them), wr (which structure a
   configuration write arrived at).                                          *)
EXTENDS VF, CapList
VARIABLES l, caps, pls, ple
vars == <<l, caps, pls, ple>>
\* caps: k -> [ext, id, ver, len]; pls/ple: placements of the two lists
Init == l = 1 /\ caps = << >> /\ pls = << >> /\ ple = << >>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Lens == [k \in DOMAIN caps |-> caps[k].len]
AsPl(s) == [k \in {x[1] : x \in Range(s)} |-> (CHOOSE x \in Range(s) : x[1] = k)[2]]

OpChk(e, pl2, ext, len) ==
  Chk(NoOverlap(pl2, len), "cap_overlap")
  \cup Chk(IF ext THEN Inside(pl2, len, 64, 1023) ELSE Inside(pl2, len, 16, 63), "cap_outside")

Sig(k, j) == k * 64 + j
\* expected value of register r: <<low half, high half>>
RegVal(k, j, nxt) ==
  IF j > 0 THEN <<Sig(k, j), 0>>
  ELSE IF caps[k].ext THEN <<caps[k].id, caps[k].ver + 16 * (4 * nxt)>>
  ELSE <<caps[k].id + 256 * (4 * nxt), Sig(k, 0)>>
Space(pl) == {<<pl[k] + j>> \o RegVal(k, j, NextOf(pl, k)) : <<k, j>> \in UNION {{<<k, j>> : j \in 0..(caps[k].len - 1)} : k \in DOMAIN pl}}
Null == DOMAIN ple # {} /\ \A k \in DOMAIN ple : ple[k] # 64
NullReg == IF Null THEN {<<64, 0, 16 * (4 * FirstAt(ple))>>} ELSE {}
NonZero(S) == {x \in S : x[2] # 0 \/ x[3] # 0}
ListStd == {<<4 * pls[k], caps[k].id>> : k \in DOMAIN pls}
ListExt == {<<4 * ple[k], caps[k].id, caps[k].ver>> : k \in DOMAIN ple} \cup (IF Null THEN {<<256, 0, 0>>} ELSE {})
SameList(got, want) == Range(got) = want /\ Len(got) = Cardinality(want)
WalkChk(e) == Chk(SameList(e.std, ListStd), "walk_standard") \cup Chk(SameList(e.ext, ListExt), "walk_extended")
SpaceChk(e) == Chk(Range(e.regs) = NonZero(Space(pls) \cup Space(ple) \cup NullReg), "space_content")

At(r) == {<<k, r - pls[k]>> : k \in {k \in DOMAIN pls : pls[k] <= r /\ r < pls[k] + caps[k].len}}
         \cup {<<k, r - ple[k]>> : k \in {k \in DOMAIN ple : ple[k] <= r /\ r < ple[k] + caps[k].len}}

Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "new" ->
            /\ caps' = [k \in {c.k : c \in Range(e.caps)} |-> CHOOSE c \in Range(e.caps) : c.k = k]
            /\ pls' = AsPl(e.std) /\ ple' = AsPl(e.ext) /\ Report(l, {})
       [] e.ev = "reg" ->
            LET x == caps[e.k].ext
                s2 == AsPl(e.std)
                x2 == AsPl(e.ext) IN
            /\ pls' = s2 /\ ple' = x2 /\ UNCHANGED caps
            /\ Report(l, (IF x THEN Chk(RegOK(ple, x2, Lens, e.k, e.off), "registration") \cup Chk(s2 = pls, "other_list") \cup OpChk(e, x2, TRUE, Lens)
                          ELSE Chk(RegOK(pls, s2, Lens, e.k, e.off), "registration") \cup Chk(x2 = ple, "other_list") \cup OpChk(e, s2, FALSE, Lens)))
       [] e.ev = "del" ->
            LET s2 == AsPl(e.std)
                x2 == AsPl(e.ext) IN
            /\ pls' = s2 /\ ple' = x2 /\ UNCHANGED caps
            /\ Report(l, Chk(DelOK(pls, s2, e.k) /\ DelOK(ple, x2, e.k), "removal"))
       [] e.ev = "walk" -> UNCHANGED <<caps, pls, ple>> /\ Report(l, WalkChk(e) \cup SpaceChk(e))
       [] e.ev = "lists" -> UNCHANGED <<caps, pls, ple>> /\ Report(l, WalkChk(e))
       [] e.ev = "host" -> UNCHANGED <<caps, pls, ple>>
            /\ Report(l, Chk(SameList(e.std, ListStd) /\ SameList(e.ext, {<<x[1], x[2]>> : x \in ListExt}), "discovery"))
       [] e.ev = "wr" -> UNCHANGED <<caps, pls, ple>>
            /\ Report(l, Chk(Range(e.hit) = {<<x[1], x[2], e.data[1], e.data[2], e.be>> : x \in At(e.r)}
                             /\ Len(e.hit) = Cardinality(At(e.r)), "write_routing"))
       [] e.ev = "crash" -> UNCHANGED <<caps, pls, ple>> /\ Report(l, {"crash_" \o e.why})
       [] OTHER -> UNCHANGED <<caps, pls, ple>> /\ Report(l, {})
  /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
=============================================================================
