------------------------------ MODULE MemTrace ------------------------------
(* Public memory and I/O accesses against byte memories.  Branches of a phase
   work on private spans, so a read must return exactly what was written last;
   in a racing phase only the final contents are compared with the candidates. *)
EXTENDS VF, MemSpace

VARIABLES l, mem, old, calls, race, wlog
vars == <<l, mem, old, calls, race, wlog>>
Init == l = 1 /\ mem = <<>> /\ old = <<>> /\ calls = <<>> /\ race = FALSE /\ wlog = {}

(* bytes in memory of an access; typed accessors give words as their digits, least significant first *)
Bytes(ws, big, d) ==
  IF ws = 0 THEN d
  ELSE [i \in 1..(Len(d) * ws) |-> LET w == d[(i - 1) \div ws + 1] k == (i - 1) % ws IN IF big = 1 THEN w[ws - k] ELSE w[k + 1]]

OnRet(e) ==
  LET x == calls[e.c] got == IF e.ok = 1 /\ x.w = 0 THEN Bytes(x.ws, x.big, e.data) ELSE << >> IN
    IF x.r = -1 THEN Chk(e.ok = 0 \/ (x.w = 1 /\ x.io = 0), "unclaimed_access_succeeds")
    ELSE IF x.to # 0 /\ e.ok = 0 THEN {}                                    \* timed out by request of the caller
    ELSE Chk(e.ok = 1, "access_failed")
         \cup (IF e.ok = 1 /\ x.w = 0 THEN Chk(Len(got) = x.n, "read_length")
                  \cup (IF race \/ Len(got) # x.n THEN {}
                        ELSE Chk(\A i \in 1..x.n : got[i] = Byte(mem, x.r, x.o + i - 1), "read_value"))
               ELSE {})

Diff(e) == {<<d[1], d[2], d[3]>> : d \in Range(e.ch)}
Cover(r, o) == {w \in wlog : w.r = r /\ w.o <= o /\ o < w.o + w.n}
OnDiff(e) ==
  IF ~race THEN
    LET want == MDiff(old, mem) got == Diff(e) IN
       Chk(\A d \in got : <<d[1], d[2]>> \in {<<x[1], x[2]>> : x \in want}, "stray_write")
       \cup Chk(want \subseteq got, "lost_write")
       \cup Chk(got \subseteq want \/ \E d \in got : <<d[1], d[2]>> \notin {<<x[1], x[2]>> : x \in want}, "wrong_write")
  ELSE
    Chk(\A d \in Diff(e) : \E w \in Cover(d[1], d[2]) : w.data[d[2] - w.o + 1] = d[3], "race_value")
    \cup Chk(LET got == [k \in {<<d[1], d[2]>> : d \in Diff(e)} |-> TRUE] IN
             \A w \in wlog : \A i \in 0..(w.n - 1) : <<w.r, w.o + i>> \in DOMAIN got
                 \/ \E v \in Cover(w.r, w.o + i) : v.data[w.o + i - v.o + 1] = Byte(mem, w.r, w.o + i), "lost_write")

(* memories after the recorded changes *)
Apply(m, ds) ==
  LET at == [k \in {<<d[1], d[2]>> : d \in ds} |-> (CHOOSE d \in ds : d[1] = k[1] /\ d[2] = k[2])[3]]
      blk == {<<d[1], d[2] \div 256>> : d \in ds}
  IN [r \in DOMAIN m |-> [b \in DOMAIN m[r] |->
       IF <<r, b>> \notin blk THEN m[r][b]
       ELSE [k \in 1..256 |-> LET o == b * 256 + k - 1 IN IF <<r, o>> \in DOMAIN at THEN at[<<r, o>>] ELSE Byte(m, r, o)]]]

Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "topo" -> mem' = <<>> /\ old' = <<>> /\ calls' = <<>> /\ race' = FALSE /\ wlog' = {} /\ Report(l, {})
       [] e.ev = "map" -> /\ mem' = IF mem = <<>> THEN MNew(Range(e.regs)) ELSE mem
                          /\ old' = IF mem = <<>> THEN MNew(Range(e.regs)) ELSE old
                          /\ UNCHANGED <<calls, race, wlog>> /\ Report(l, {})
       [] e.ev = "race" -> race' = TRUE /\ UNCHANGED <<mem, old, calls, wlog>> /\ Report(l, {})
       [] e.ev = "call" ->
            /\ calls' = calls @@ (e.c :> [r |-> e.r, o |-> e.o, n |-> e.n, w |-> e.w, io |-> e.io, to |-> e.to, ws |-> e.ws, big |-> e.big])
            /\ mem' = IF e.w = 1 /\ e.r # -1 /\ ~race THEN MWrite(mem, e.r, e.o, Bytes(e.ws, e.big, e.data)) ELSE mem
            /\ wlog' = IF race /\ e.w = 1 /\ e.r # -1 THEN wlog \cup {[r |-> e.r, o |-> e.o, n |-> e.n, data |-> Bytes(e.ws, e.big, e.data), c |-> e.c]} ELSE wlog
            /\ UNCHANGED <<old, race>> /\ Report(l, {})
       [] e.ev = "ret" -> /\ calls' = [c \in DOMAIN calls \ {e.c} |-> calls[c]]
                          /\ UNCHANGED <<mem, old, race, wlog>> /\ Report(l, OnRet(e))
       [] e.ev = "diff" -> /\ mem' = IF race THEN Apply(mem, Diff(e)) ELSE mem
                           /\ old' = mem' /\ race' = FALSE /\ wlog' = {}
                           /\ UNCHANGED calls /\ Report(l, OnDiff(e) \cup Chk(DOMAIN calls = {}, "access_never_returns"))
       [] e.ev = "end" -> UNCHANGED <<mem, old, calls, race, wlog>> /\ Report(l, Chk(DOMAIN calls = {}, "access_never_returns"))
       [] e.ev = "crash" -> UNCHANGED <<mem, old, calls, race, wlog>> /\ Report(l, {"crash_" \o e.why})
       [] OTHER -> UNCHANGED <<mem, old, calls, race, wlog>> /\ Report(l, {})
  /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
=============================================================================
