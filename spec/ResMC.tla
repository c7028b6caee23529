------------------------------- MODULE ResMC -------------------------------
(* Bottom-up address allocation: a bump allocator per bus with natural BAR
   alignment and granular bridge windows gives aligned, disjoint, nested
   ranges for every hierarchy and every assignment of BAR sizes.  Without the
   alignment step before a window (PreAlign = FALSE) windows can overlap BARs. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, G, Sizes, PreAlign

VARIABLES par, isb, size, i, lim, base, end, bar, stk
vars == <<par, isb, size, i, lim, base, end, bar, stk>>
Node == 1..N
RECURSIVE Above(_, _)
Above(p, x) == IF x = 0 THEN {} ELSE {p[x]} \cup Above(p, p[x])
Trees == {p \in [Node -> 0..(N - 1)] : \A x \in Node : p[x] < x /\ (x > 1 => p[x] = x - 1 \/ p[x] \in Above(p, x - 1))}
Al(v, s) == ((v + s - 1) \div s) * s

Init == /\ par \in Trees /\ isb \in [Node -> BOOLEAN]
        /\ \A x \in Node : (\E y \in Node : par[y] = x) => isb[x]
        /\ size \in [Node -> Sizes]
        /\ i = 1 /\ lim = 0
        /\ base = [x \in Node |-> 0] /\ end = [x \in Node |-> 0] /\ bar = [x \in Node |-> -1]
        /\ stk = <<0>>

Top == stk[Len(stk)]
(* the next node in depth-first order belongs to the bus on top of the stack, or the top bus is complete *)
Visit ==
  /\ IF i <= N THEN par[i] = Top ELSE FALSE
  /\ LET a == IF size[i] = 0 THEN lim ELSE Al(lim, size[i])
         l2 == a + size[i]
         l3 == IF isb[i] /\ PreAlign THEN Al(l2, G) ELSE l2 IN
     /\ bar' = [bar EXCEPT ![i] = IF size[i] = 0 THEN -1 ELSE a]
     /\ lim' = l3
     /\ base' = [base EXCEPT ![i] = IF isb[i] THEN l3 ELSE 0]
  /\ stk' = IF isb[i] THEN Append(stk, i) ELSE stk
  /\ i' = i + 1
  /\ UNCHANGED <<par, isb, size, end>>
Close ==
  /\ Top # 0 /\ (IF i > N THEN TRUE ELSE par[i] # Top)
  /\ lim' = Al(lim, G)
  /\ end' = [end EXCEPT ![Top] = Al(lim, G)]
  /\ stk' = SubSeq(stk, 1, Len(stk) - 1)
  /\ UNCHANGED <<par, isb, size, i, base, bar>>
Next == Visit \/ Close
Spec == Init /\ [][Next]_vars

Done == i > N /\ stk = <<0>>
(* what the registers can express: windows in units of G *)
Dn(v) == (v \div G) * G
W(x) == <<Dn(base[x]), end[x]>>
Disj(a, b) == a[1] >= a[2] \/ b[1] >= b[2] \/ a[2] <= b[1] \/ b[2] <= a[1]
BarR(x) == <<bar[x], bar[x] + size[x]>>
HasBar == {x \in Node : bar[x] >= 0}
Good == Done =>
  /\ \A x \in HasBar : bar[x] % size[x] = 0
  /\ \A x, y \in HasBar : x # y => Disj(BarR(x), BarR(y))
  /\ \A x \in HasBar : \A b \in Above(par, x) \ {0} : W(b)[1] <= bar[x] /\ bar[x] + size[x] <= W(b)[2]
  /\ \A x, y \in Node : isb[x] /\ isb[y] /\ x # y /\ par[x] = par[y] => Disj(W(x), W(y))
  /\ \A x \in HasBar, b \in Node : isb[b] /\ b \notin Above(par, x) => Disj(BarR(x), W(b))
  /\ \A x \in Node : isb[x] /\ par[x] # 0 => W(x)[1] >= W(x)[2] \/ (W(par[x])[1] <= W(x)[1] /\ W(x)[2] <= W(par[x])[2])
=============================================================================
