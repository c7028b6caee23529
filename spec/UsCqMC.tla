------------------------------- MODULE UsCqMC -------------------------------
(* The completer request path of the UltraScale models: arrivals, the queue of
   non-posted requests without credit, the credit counter (saturating at C)
   that the user increments, a stream that takes one request at a time.
   Every sequence of N posted and non-posted requests, G grants at most.      *)
EXTENDS Integers, Sequences
CONSTANTS N, C, G
VARIABLES in, rx, npq, cur, cred, given, out, started
vars == <<in, rx, npq, cur, cred, given, out, started>>
Kinds == {"P", "N"}
Init == /\ in \in {[i \in 1..N |-> <<i, f[i]>>] : f \in [1..N -> Kinds]}
        /\ rx = << >> /\ npq = << >> /\ cur = << >> /\ cred = 0 /\ given = 0 /\ out = << >> /\ started = FALSE
Arrive == in # << >> /\ rx' = Append(rx, in[1]) /\ in' = Tail(in) /\ UNCHANGED <<npq, cur, cred, given, out, started>>
Grant == /\ given < G /\ given' = given + 1 /\ cred' = (IF cred = C THEN C ELSE cred + 1)
         /\ UNCHANGED <<in, rx, npq, cur, out, started>>
(* the stream task: with nothing in hand it first serves what waits for credit *)
Serve == /\ cur = << >> /\ npq # << >> /\ cred > 0 /\ ~started
         /\ cur' = <<npq[1]>> /\ npq' = Tail(npq) /\ cred' = cred - 1 /\ UNCHANGED <<in, rx, given, out, started>>
Pop == /\ cur = << >> /\ rx # << >> /\ (started \/ npq = << >> \/ cred = 0)
       /\ rx' = Tail(rx) /\ started' = TRUE
       /\ IF rx[1][2] = "P" THEN cur' = <<rx[1]>> /\ UNCHANGED <<npq, cred>>
          ELSE IF npq = << >> /\ cred > 0 THEN cur' = <<rx[1]>> /\ cred' = cred - 1 /\ UNCHANGED npq
          ELSE npq' = Append(npq, rx[1]) /\ UNCHANGED <<cur, cred>>
       /\ UNCHANGED <<in, given, out>>
Idle == started /\ cur = << >> /\ rx = << >> /\ started' = FALSE /\ UNCHANGED <<in, rx, npq, cur, cred, given, out>>
Accept == cur # << >> /\ out' = Append(out, cur[1]) /\ cur' = << >> /\ UNCHANGED <<in, rx, npq, cred, given, started>>
Next == Arrive \/ Grant \/ Serve \/ Pop \/ Idle \/ Accept
Spec == Init /\ [][Next]_vars /\ WF_vars(Arrive) /\ WF_vars(Serve) /\ WF_vars(Pop) /\ WF_vars(Idle) /\ WF_vars(Accept)
Granted == Spec /\ WF_vars(Grant)
Of(k) == SelectSeq(out, LAMBDA x : x[2] = k)
Rising(s) == \A i, j \in DOMAIN s : i < j => s[i][1] < s[j][1]
InOrder == Rising(Of("P")) /\ Rising(Of("N"))
NoPass == \A i, j \in DOMAIN out : i < j /\ out[i][2] = "N" /\ out[j][2] = "P" => out[j][1] > out[i][1]
Credit == Len(Of("N")) <= given
Waiting == LET s == in \o rx \o npq \o cur IN \E i \in DOMAIN s : s[i][2] = "P"
PostedFlow == <>[]~Waiting
AllOut == (C + 0 >= N /\ G >= N) => <>[](Len(out) = N)
=============================================================================
