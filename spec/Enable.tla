------------------------------- MODULE Enable -------------------------------
(* Enabling functions.  Per function: how often the host has enabled it (cnt),
   what it last asked for as to bus mastering (mst), and two bits of the command
   register: decoding (dec) and mastering (bme).  Enabling is counted; the first
   time it first gets every bridge on the way ready, from the top down.        *)
EXTENDS Integers, Sequences
Fresh(dec, bme) == [cnt |-> 0, mst |-> FALSE, dec |-> dec, bme |-> bme]
Master(s, f, on) == [s EXCEPT ![f].mst = on, ![f].bme = on]
(* path: the bridges above f, nearest the root first *)
RECURSIVE Bridges1(_, _)
Bridges1(s, path) ==
  IF path = <<>> THEN s
  ELSE LET b == path[1]
           t == IF s[b].cnt > 0 THEN (IF s[b].mst THEN s ELSE Master(s, b, TRUE))
                ELSE Master([s EXCEPT ![b].cnt = 1, ![b].dec = TRUE], b, TRUE)
       IN Bridges1(t, SubSeq(path, 2, Len(path)))
Enable1(s, f, path) ==
  LET t == [s EXCEPT ![f].cnt = @ + 1] IN
  IF t[f].cnt > 1 THEN t ELSE [Bridges1(t, path) EXCEPT ![f].dec = TRUE]
Disable1(s, f) ==
  LET t == [s EXCEPT ![f].cnt = @ - 1] IN IF t[f].cnt > 0 THEN t ELSE Master(t, f, FALSE)
=============================================================================
