------------------------------- MODULE Trees -------------------------------
EXTENDS Integers, Sequences, FiniteSets

(* ordered trees in depth-first numbering that PCIe allows: levels alternate between
   ports (link below) and what the link leads to: one upstream bridge or functions *)
RECURSIVE Trees(_), Anc(_, _), Depth(_, _)
Anc(p, x) == IF x = 0 THEN {} ELSE {p[x]} \cup Anc(p, p[x])
Depth(p, x) == IF x = 0 THEN 0 ELSE 1 + Depth(p, p[x])
Trees(n) == IF n = 1 THEN {<<0>>}
            ELSE UNION {{Append(p, x) : x \in {n - 1} \cup Anc(p, n - 1)} : p \in Trees(n - 1)}
Kids(p, x) == {y \in DOMAIN p : p[y] = x}
Port(p, x) == Depth(p, x) % 2 = 1
IsUp(p, x) == ~Port(p, x) /\ Kids(p, x) # {}
Legal(p) == \A x \in DOMAIN p : Port(p, x) => (\A y \in Kids(p, x) : IsUp(p, y) => Cardinality(Kids(p, x)) = 1) /\ Cardinality(Kids(p, x)) <= 2
Shapes(N) == {p \in UNION {Trees(n) : n \in 1..N} : Legal(p) /\ \A x \in DOMAIN p : Port(p, x) => Kids(p, x) # {}}

Kind(p, x) == IF Port(p, x) THEN (IF p[x] = 0 THEN "rp" ELSE "dp") ELSE IF IsUp(p, x) THEN "up" ELSE "ep"
=============================================================================
