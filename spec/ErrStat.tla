------------------------------ MODULE ErrStat ------------------------------
(* Error bits of the status registers: what crosses an interface sets them,
   only writing 1 clears them.  A bit is known by side ("pri": the status
   register of a function or of the primary side of a bridge, "sec": the
   secondary status register of a bridge) and name.
   For every function two sets of bits: `lo` must be set, `hi` may be set
   (poisoned TLPs in directions the PCIe specification does not count).     *)
EXTENDS Integers, FiniteSets

Names == {"mdpe", "sta", "rta", "rma"}   \* master data parity error, signalled / received target abort, received master abort
Both(S) == [lo |-> S, hi |-> S]
May(S) == [lo |-> {}, hi |-> S]
None == Both({})
Or(a, b) == [lo |-> a.lo \cup b.lo, hi |-> a.hi \cup b.hi]
When(c, a) == IF c THEN a ELSE None

(* A TLP t = [kind |-> "wr" | "cpl" | "rd", st |-> completion status, ep |-> poisoned].
   per / bper: parity error response enabled in the command / bridge control register. *)
Pri == {<<"pri", "mdpe">>}
Sec == {<<"sec", "mdpe">>}

\* function that sends t
Sends(t, per) ==
  Or(When(t.kind = "cpl" /\ t.st = 4, Both({<<"pri", "sta">>})),
     When(t.ep /\ per, IF t.kind = "wr" THEN Both(Pri) ELSE May(Pri)))
\* bridge that sends t itself; down: towards its secondary side
BridgeSends(t, down, per, bper) ==
  IF down THEN Or(When(t.kind = "cpl" /\ t.st = 4, Both({<<"sec", "sta">>})), When(t.ep /\ bper, IF t.kind = "wr" THEN Both(Sec) ELSE May(Sec)))
  ELSE Sends(t, per)
\* function t is for
Takes(t, per) ==
  Or(Or(When(t.kind = "cpl" /\ t.st = 4, Both({<<"pri", "rta">>})),
        When(t.kind = "cpl" /\ t.st = 1, Both({<<"pri", "rma">>}))),
     When(t.ep /\ per, IF t.kind = "cpl" THEN Both(Pri) ELSE May(Pri)))
\* bridge t climbs through (secondary to primary side)
Climbs(t, per, bper) ==
  Or(When(t.ep /\ per, IF t.kind = "wr" THEN Both(Pri) ELSE May(Pri)),
     When(t.ep /\ bper, IF t.kind = "cpl" THEN Both(Sec) ELSE May(Sec)))
\* bridge t descends through
Falls(t, per, bper) ==
  Or(When(t.ep /\ per, IF t.kind = "cpl" THEN Both(Pri) ELSE May(Pri)),
     When(t.ep /\ bper, IF t.kind = "wr" THEN Both(Sec) ELSE May(Sec)))

(* effect on function f of a TLP t sent by s and received by d; above[x]: bridges over x, root complex (0) excluded *)
Effect(f, s, d, t, above, per, bper) ==
  IF f = s THEN Sends(t, per[f])
  ELSE IF f = d THEN Takes(t, per[f])
  ELSE IF f \in above[s] /\ f \notin above[d] THEN Climbs(t, per[f], bper[f])
  ELSE IF f \in above[d] /\ f \notin above[s] THEN Falls(t, per[f], bper[f])
  ELSE None
Minus(a, S) == [lo |-> a.lo \ S, hi |-> a.hi \ S]
=============================================================================
