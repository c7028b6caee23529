----------------------------- MODULE TimingTrace -----------------------------
(* Hand-over and arrival times of a recorded run (picoseconds).  Begin and end of
   a packet on the link follow from its arrival, its size and the negotiated
   speed and width.  Tol covers rounding of two durations to the step of the
   simulator (delays and durations are rounded separately).                    *)
EXTENDS VF, Timing
VARIABLES l, c, sp, w, sub, last, prev
vars == <<l, c, sp, w, sub, last, prev>>
Init == l = 1 /\ c = << >> /\ sp = 0 /\ w = 0 /\ sub = <<<< >>, << >>>> /\ last = <<0, 0>> /\ prev = <<"", "">>
Tol == 3
Bytes(e) == IF e.k = "TLP" THEN WireBytes(e.w, e.n) ELSE DllpBytes
Delay == c.delay[1] + c.delay[2]
Src(e) == 2 - e.p            \* index of the transmitting side
ArChk(e) ==
  LET s == Src(e)
      end == e.t - (IF sp = 0 \/ w = 0 THEN 0 ELSE Delay)
      begin == end - Busy(Bytes(e), sp, w)
      from == Max(last[s], c.t) IN
  Chk(begin >= from - Tol, "faster_than_link")
  \cup (IF e.k # "TLP" THEN {}
        ELSE Chk(e.id \in DOMAIN sub[s] /\ begin >= sub[s][e.id] - Tol, "before_hand_over")
             \cup (IF e.id \in DOMAIN sub[s] /\ c.free THEN Chk(begin <= Max(sub[s][e.id], from) + Tol, "slower_than_link") ELSE {}))
  \cup (IF e.k = "I1" /\ prev[s] \in {"", "I1"} THEN Chk(begin <= from + Tol, "dllp_slower_than_link") ELSE {})
Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     CASE e.ev = "ports" -> /\ c' = e /\ sp' = Lower(e.speed[1], e.speed[2]) /\ w' = Lower(e.width[1], e.width[2])
                            /\ sub' = <<<< >>, << >>>> /\ last' = <<0, 0>> /\ prev' = <<"", "">> /\ Report(l, {})
       [] e.ev = "neg" -> /\ UNCHANGED <<c, sp, w, sub, last, prev>>
                          /\ Report(l, Chk(e.speed = <<sp, sp>>, "negotiated_speed") \cup Chk(e.width = <<w, w>>, "negotiated_width"))
       [] e.ev = "sub" -> /\ sub' = [sub EXCEPT ![e.p + 1] = (e.id :> e.t) @@ @] /\ UNCHANGED <<c, sp, w, last, prev>> /\ Report(l, {})
       [] e.ev = "ar" -> /\ last' = [last EXCEPT ![Src(e)] = e.t - (IF sp = 0 \/ w = 0 THEN 0 ELSE Delay)]
                         /\ prev' = [prev EXCEPT ![Src(e)] = e.k] /\ UNCHANGED <<c, sp, w, sub>> /\ Report(l, ArChk(e))
       [] e.ev = "crash" -> UNCHANGED <<c, sp, w, sub, last, prev>> /\ Report(l, {"crash_" \o e.why})
       [] OTHER -> UNCHANGED <<c, sp, w, sub, last, prev>> /\ Report(l, {})
  /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
=============================================================================
