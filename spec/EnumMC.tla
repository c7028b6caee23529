------------------------------- MODULE EnumMC -------------------------------
(* Enumeration as a protocol: the host only sees configuration accesses routed
   through the bridges' bus number registers, functions may answer with retry
   status for a while, and the registers are being programmed during the scan.
   Checked for every hierarchy with at most N nodes.                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, C           \* nodes, most retries a function asks for

VARIABLES par, isb, mul, crs, pri, sec, sub, stk, found, last, done
vars == <<par, isb, mul, crs, pri, sec, sub, stk, found, last, done>>

Node == 1..N
ALL == N + 1             \* "all buses above" while the range is still open
RECURSIVE Above(_, _)
Above(p, x) == IF x = 0 THEN {} ELSE {p[x]} \cup Above(p, p[x])
(* parent vectors in depth-first order *)
Trees == {p \in [Node -> 0..(N - 1)] : \A x \in Node : p[x] < x /\ (x > 1 => p[x] = x - 1 \/ p[x] \in Above(p, x - 1))}
Kids(p) == {x \in Node : par[x] = p}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A y \in S : m <= y IN <<m>> \o SetSeq(S \ {m})
KidAt(p, d) == LET s == SetSeq(Kids(p)) IN IF d \in DOMAIN s THEN s[d] ELSE 0

(* routing of a configuration request for (bus, d) by the registers; 0 = nobody *)
RECURSIVE Walk(_, _, _, _)
Walk(p, b, bus, d) ==
  IF b = bus THEN KidAt(p, d)
  ELSE LET c == {x \in Kids(p) : isb[x] /\ sec[x] > b /\ sec[x] <= bus /\ bus <= sub[x]} IN
       IF c = {} THEN 0 ELSE LET x == CHOOSE x \in c : \A y \in c : x <= y IN Walk(x, sec[x], bus, d)
Route(bus, d) == Walk(0, 0, bus, d)

Init ==
  /\ par \in Trees
  /\ isb \in [Node -> BOOLEAN]
  /\ \A x \in Node : (\E y \in Node : par[y] = x) => isb[x]
  /\ mul = [x \in Node |-> FALSE]
  /\ crs \in [Node -> 0..C]
  /\ pri = [x \in Node |-> 0] /\ sec = [x \in Node |-> 0] /\ sub = [x \in Node |-> 0]
  /\ stk = <<[bus |-> 0, d |-> 1, todo |-> <<>>, b |-> 0]>>
  /\ found = {} /\ last = 0 /\ done = FALSE

Top == stk[Len(stk)]
SetTop(r) == [stk EXCEPT ![Len(stk)] = r]

Probe ==
  /\ stk # <<>> /\ Top.d <= N
  /\ LET x == Route(Top.bus, Top.d) IN
     IF x = 0 THEN /\ stk' = SetTop([Top EXCEPT !.d = @ + 1])
                   /\ UNCHANGED <<crs, found>>
     ELSE IF crs[x] > 0 THEN crs' = [crs EXCEPT ![x] = @ - 1] /\ UNCHANGED <<stk, found>>
     ELSE /\ found' = found \cup {<<x, Top.bus, Top.d>>}
          /\ stk' = SetTop([Top EXCEPT !.d = @ + 1, !.todo = IF isb[x] THEN Append(@, x) ELSE @])
          /\ UNCHANGED crs
  /\ UNCHANGED <<par, isb, mul, pri, sec, sub, last, done>>

Descend ==
  /\ stk # <<>> /\ Top.d > N /\ Top.todo # <<>>
  /\ LET x == Head(Top.todo) IN
     /\ pri' = [pri EXCEPT ![x] = Top.bus] /\ sec' = [sec EXCEPT ![x] = last + 1] /\ sub' = [sub EXCEPT ![x] = ALL]
     /\ last' = last + 1
     /\ stk' = Append(SetTop([Top EXCEPT !.todo = Tail(@)]), [bus |-> last + 1, d |-> 1, todo |-> <<>>, b |-> x])
  /\ UNCHANGED <<par, isb, mul, crs, found, done>>

Return ==
  /\ stk # <<>> /\ Top.d > N /\ Top.todo = <<>>
  /\ sub' = IF Top.b = 0 THEN sub ELSE [sub EXCEPT ![Top.b] = last]
  /\ stk' = SubSeq(stk, 1, Len(stk) - 1)
  /\ done' = (Len(stk) = 1)
  /\ UNCHANGED <<par, isb, mul, crs, pri, sec, found, last>>

Next == Probe \/ Descend \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

B == {x \in Node : isb[x]}
DSec(b) == IF b = 0 THEN 0 ELSE Cardinality({x \in B : x <= b})
DSub(b) == DSec(b) + Cardinality({x \in B : b \in Above(par, x)})

(* no bus is ever claimed by two bridges of the same bus, so every probe reaches the bus being scanned *)
UniqueClaim == \A p \in {0} \cup B : \A x, y \in Kids(p) : x # y /\ isb[x] /\ isb[y] /\ sec[x] # 0 /\ sec[y] # 0 =>
                  \A k \in 1..N : ~(sec[x] <= k /\ k <= sub[x] /\ sec[y] <= k /\ k <= sub[y])
                                  \/ k > last
ReachRight == \A i \in DOMAIN stk : \A d \in 1..N : i = Len(stk) => Route(stk[i].bus, d) = KidAt(stk[i].b, d)
Final == done => /\ \A x \in Node : \E t \in found : t[1] = x /\ t[2] = DSec(par[x]) /\ KidAt(par[x], t[3]) = x
                 /\ Cardinality(found) = N
                 /\ \A b \in B : pri[b] = DSec(par[b]) /\ sec[b] = DSec(b) /\ sub[b] = DSub(b)
Terminates == <>done
=============================================================================
