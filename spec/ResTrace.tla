------------------------------ MODULE ResTrace ------------------------------
(* Address assignment: every base address register, expansion ROM and bridge
   window of the real hierarchy after enumeration.                          *)
EXTENDS VF, Hier, Addr

VARIABLES l, tp, hw
vars == <<l, tp, hw>>
Init == l = 1 /\ tp = <<>> /\ hw = <<>>

R(e, f) == LET i == CHOOSE i \in DOMAIN e.fns : e.fns[i].f = f IN e.fns[i]
AEnd(a, s) == AMinus(APlus(a, s), <<0, 0, 0, 1>>)          \* last address of [a, a+s)

(* one implemented BAR: expected shape b (from the hierarchy) and register value *)
BarLo(e, f, b) == R(e, f).bars[b.i + 1]
BarHi(e, f, b) == IF b.x = 1 THEN R(e, f).bars[b.i + 2] ELSE <<0, 0>>
Mask(b) == IF b.io = 1 THEN 4 ELSE 16
Base(e, f, b) == <<BarHi(e, f, b)[1], BarHi(e, f, b)[2], BarLo(e, f, b)[1], BarLo(e, f, b)[2] - (BarLo(e, f, b)[2] % Mask(b))>>
TypeBits(b) == IF b.io = 1 THEN 1 ELSE 4 * b.x + 8 * b.pf

Item(f, i, io, pf, a, s) == [f |-> f, i |-> i, io |-> io, pf |-> pf, a |-> a, s |-> s]
RangeOf(t, e, f) == {Item(f, b.i, b.io, IF b.pf = 1 /\ b.x = 1 THEN 1 ELSE 0, Base(e, f, b), b.s) : b \in Range(Fn(t, f).bars)}
             \cup (IF Fn(t, f).rom = AZero THEN {}
                   ELSE {Item(f, 6, 0, 0, <<0, 0, R(e, f).rom[1], R(e, f).rom[2] - (R(e, f).rom[2] % 2048)>>, Fn(t, f).rom)})
Items(t, e) == UNION {RangeOf(t, e, f) : f \in Nodes(t)}
Host(t) == {Item(0, h.r, h.io, 0, h.base, h.size) : h \in Range(t.host)}

Win(r, x) == IF x.io = 1 THEN <<r.iob, r.iol>> ELSE IF x.pf = 1 THEN <<r.pb, r.pl>> ELSE <<r.mb, r.ml>>
Inside(w, x) == ALe(w[1], x.a) /\ ALe(AEnd(x.a, x.s), w[2])
EmptyW(w) == ALt(w[2], w[1])
Wins(r) == {<<r.iob, r.iol, 1>>, <<r.mb, r.ml, 0>>, <<r.pb, r.pl, 2>>}
WDisj(v, w) == EmptyW(v) \/ EmptyW(w) \/ ALt(v[2], w[1]) \/ ALt(w[2], v[1])
WNest(v, w) == EmptyW(v) \/ (ALe(w[1], v[1]) /\ ALe(v[2], w[2]))

OnHw(t, e) ==
  LET its == Items(t, e) IN
    Chk(\A f \in Nodes(t) : \A b \in Range(Fn(t, f).bars) : BarLo(e, f, b)[2] % Mask(b) = TypeBits(b), "bar_type")
    \cup Chk(\A x \in its : AAligned(x.a, x.s), "bar_alignment")
    \cup Chk(\A x \in its : x.io = 0 /\ x.pf = 0 => ALt(AEnd(x.a, x.s), <<0, 1, 0, 0>>), "bar_width")
    \cup Chk(\A x \in its : x.a # AZero, "bar_unassigned")
    \cup Chk(\A x \in its : \A y \in its : x.f < y.f \/ (x.f = y.f /\ x.i < y.i) => x.io # y.io \/ ADisjoint(x.a, x.s, y.a, y.s), "bar_overlap")
    \cup Chk(\A x \in its : \A h \in Host(t) : x.io # h.io \/ ADisjoint(x.a, x.s, h.a, h.s), "bar_host_overlap")
    \cup Chk(\A x \in its : \A b \in Above(t, x.f) \ {0} : Inside(Win(R(e, b), x), x), "bar_outside_window")
    \cup Chk(\A x \in its : Inside(Win(e.rc, x), x), "bar_outside_root_window")
    \cup Chk(\A b, c \in Bridges(t) : b < c /\ Up(t, b) = Up(t, c) =>
               \A v \in Wins(R(e, b)), w \in Wins(R(e, c)) : (v[3] = 1) # (w[3] = 1) \/ WDisj(v, w), "window_overlap")
    \cup Chk(\A b \in Bridges(t) : Up(t, b) # 0 => \A v \in Wins(R(e, b)), w \in Wins(R(e, Up(t, b))) : v[3] = w[3] => WNest(v, w), "window_nesting")
    \cup Chk(\A x \in its : \A b \in Bridges(t) : b \notin Above(t, x.f) =>
               \A w \in Wins(R(e, b)) : (w[3] = 1) # (x.io = 1) \/ WDisj(<<x.a, AEnd(x.a, x.s)>>, w), "window_claims_foreign_bar")

(* the host's view equals the registers *)
OnTree(t, e, h) ==
  LET D(f) == {d \in Range(e.devs) : d.id = R(h, f).id}
      Ok(f, d) ==
        LET its == RangeOf(t, h, f) bars == {x \in its : x.i < 6} IN
          /\ {<<b.i, b.a, b.s>> : b \in Range(d.bars)} = {<<x.i, x.a, x.s>> : x \in bars}
          /\ \A b \in Range(d.bars) : b.win = 1 /\ b.wb = b.a /\ b.ws = b.s
          /\ \A b \in Range(d.bars) : \A s \in Range(Fn(t, f).bars) : s.i = b.i => b.raw % Mask(s) = TypeBits(s)
          /\ {<<d.rom.a, d.rom.s>>} = (IF Fn(t, f).rom = AZero THEN {<<AZero, AZero>>} ELSE {<<x.a, x.s>> : x \in its \ bars})
  IN Chk(\A f \in Nodes(t) : \A d \in D(f) : Ok(f, d), "tree_differs_from_registers")

Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "topo" -> tp' = e /\ hw' = <<>> /\ Report(l, {})
       [] e.ev = "hw" -> tp' = tp /\ hw' = e /\ Report(l, OnHw(tp, e))
       [] e.ev = "tree" -> UNCHANGED <<tp, hw>> /\ Report(l, OnTree(tp, e, hw))
       [] e.ev = "crash" -> UNCHANGED <<tp, hw>> /\ Report(l, {"crash_" \o e.why})
       [] OTHER -> UNCHANGED <<tp, hw>> /\ Report(l, {})
  /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
=============================================================================
