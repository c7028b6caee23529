-------------------------------- MODULE Hier --------------------------------
(* The hierarchy as recorded by a "topo" record: nodes 0 (root complex) and
   1..N in depth-first order; kinds rp (root port), up / dp (switch ports),
   ep (endpoint function).  What enumeration has to find is a function of it. *)
EXTENDS Integers, Sequences, FiniteSets

Nodes(tp) == {x.f : x \in {tp.fns[i] : i \in DOMAIN tp.fns}}
Fn(tp, f) == LET i == CHOOSE i \in DOMAIN tp.fns : tp.fns[i].f = f IN tp.fns[i]
Bridges(tp) == {f \in Nodes(tp) : Fn(tp, f).k # "ep"}
Eps(tp) == {f \in Nodes(tp) : Fn(tp, f).k = "ep"}
Up(tp, f) == Fn(tp, f).up

RECURSIVE Above(_, _)
Above(tp, f) == IF f = 0 THEN {} ELSE LET u == Up(tp, f) IN {u} \cup Above(tp, u)
Subtree(tp, b) == {f \in Nodes(tp) : f = b \/ b \in Above(tp, f)}

(* declarative depth-first numbering: a bridge's secondary bus is its rank among the bridges *)
Sec(tp, b) == IF b = 0 THEN 0 ELSE Cardinality({x \in Bridges(tp) : x <= b})
Sub(tp, b) == Sec(tp, b) + Cardinality({x \in Bridges(tp) : b \in Above(tp, x)})
BusOf(tp, f) == Sec(tp, Up(tp, f))
IdOf(tp, f) == BusOf(tp, f) * 256 + Fn(tp, f).dv * 8 + Fn(tp, f).fn
Pri(tp, b) == BusOf(tp, b)
=============================================================================
