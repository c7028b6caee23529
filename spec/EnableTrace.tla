----------------------------- MODULE EnableTrace -----------------------------
(* Command registers of all functions after every enabling operation of the host *)
EXTENDS VF, Hier, Enable, Bitwise
VARIABLES l, tp, st, rest
vars == <<l, tp, st, rest>>
Init == l = 1 /\ tp = <<>> /\ st = <<>> /\ rest = <<>>
RECURSIVE PathTo(_)
PathTo(f) == IF Up(tp, f) = 0 THEN <<>> ELSE Append(PathTo(Up(tp, f)), Up(tp, f))
Cmd(e, f) == e.cmd[CHOOSE i \in DOMAIN e.cmd : e.cmd[i][1] = f][2]
Bit(n, b) == (n \div b) % 2 = 1
Others(n) == n - (n % 8)
After(e) == CASE e.op = "enable" -> Enable1(st, e.f, PathTo(e.f))
              [] e.op = "disable" -> Disable1(st, e.f)
              [] e.op = "master" -> Master(st, e.f, TRUE)
              [] e.op = "clear" -> Master(st, e.f, FALSE)
              [] OTHER -> st
CtlChk(e) ==
  LET s == After(e)
      bad(x) == (IF (Bit(Cmd(e, x), 1) /\ Bit(Cmd(e, x), 2)) # s[x].dec THEN {IF x = e.f THEN "decoding" ELSE "decoding_elsewhere"} ELSE {})
                \cup (IF Bit(Cmd(e, x), 4) # s[x].bme THEN {IF x = e.f THEN "bus_mastering" ELSE "bus_mastering_elsewhere"} ELSE {})
                \cup (IF Others(Cmd(e, x)) # rest[x] THEN {"other_command_bits"} ELSE {})
  IN UNION {bad(x) : x \in DOMAIN s}
Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "topo" -> tp' = e /\ st' = <<>> /\ rest' = <<>> /\ Report(l, {})
       [] e.ev = "ctl0" -> /\ st' = [f \in Nodes(tp) |-> Fresh(Bit(Cmd(e, f), 1) /\ Bit(Cmd(e, f), 2), Bit(Cmd(e, f), 4))]
                           /\ rest' = [f \in Nodes(tp) |-> Others(Cmd(e, f))] /\ UNCHANGED tp /\ Report(l, {})
       [] e.ev = "ctl" -> st' = After(e) /\ UNCHANGED <<tp, rest>> /\ Report(l, CtlChk(e))
       [] e.ev = "crash" -> UNCHANGED <<tp, st, rest>> /\ Report(l, {"crash_" \o e.why})
       [] OTHER -> UNCHANGED <<tp, st, rest>> /\ Report(l, {})
  /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
=============================================================================
