------------------------------ MODULE EnableMC ------------------------------
(* Every hierarchy of up to N functions and every sequence of L operations of the
   host.  A function enabled for the first time finds everything above it ready
   (Usable), nothing but the last disable or an explicit request takes bus
   mastering away (Kept), decoding once on stays on, and an operation changes
   only the function itself and, when enabling, the bridges above it (Local).   *)
EXTENDS Trees, Enable
CONSTANTS N, L
VARIABLES p, s, k, lst
vars == <<p, s, k, lst>>
Leaf(x) == Kids(p, x) = {}
RECURSIVE PathOf(_)
PathOf(x) == IF p[x] = 0 THEN <<>> ELSE Append(PathOf(p[x]), p[x])
Init == /\ p \in Shapes(N) /\ s = [x \in DOMAIN p |-> Fresh(FALSE, FALSE)] /\ k = 0 /\ lst = [op |-> "none", f |-> 0, was |-> s]
Do(op, x, t) == s' = t /\ lst' = [op |-> op, f |-> x, was |-> s] /\ k' = k + 1 /\ UNCHANGED p
Next == /\ k < L
        /\ \E x \in DOMAIN p : \/ Do("enable", x, Enable1(s, x, PathOf(x)))
                               \/ s[x].cnt > 0 /\ Do("disable", x, Disable1(s, x))
                               \/ \E on \in BOOLEAN : Do(IF on THEN "master" ELSE "clear", x, Master(s, x, on))
Spec == Init /\ [][Next]_vars
First == lst.op = "enable" /\ lst.was[lst.f].cnt = 0
Usable == First => s[lst.f].dec /\ \A b \in Anc(p, lst.f) \ {0} : s[b].dec /\ s[b].bme /\ s[b].cnt > 0
Kept == \A x \in DOMAIN p :
  /\ lst.was[x].bme /\ ~s[x].bme => lst.f = x /\ (lst.op = "clear" \/ (lst.op = "disable" /\ s[x].cnt = 0))
  /\ lst.was[x].dec => s[x].dec
  /\ s[x].cnt >= 0
Local == \A x \in DOMAIN p : s[x] # lst.was[x] => x = lst.f \/ (lst.op = "enable" /\ x \in Anc(p, lst.f))
=============================================================================
