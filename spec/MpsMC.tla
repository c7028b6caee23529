-------------------------------- MODULE MpsMC --------------------------------
(* Choosing payload sizes while the hierarchy is being discovered: every
   hierarchy of up to N nodes, every combination of supported sizes 0..M, every
   order in which functions may be configured (parents and earlier siblings
   first) and every value left over from before.                             *)
EXTENDS Trees
CONSTANTS N, M

VARIABLES p, ss, rcm, cur, done
vars == <<p, ss, rcm, cur, done>>
Min(a, b) == IF a < b THEN a ELSE b

Init == /\ p \in Shapes(N) /\ rcm \in 0..M
        /\ ss \in [DOMAIN p -> 0..M] /\ cur \in [DOMAIN p -> 0..M] /\ \A x \in DOMAIN p : cur[x] <= ss[x]
        /\ done = {}

Ready(x) == x \notin done /\ (p[x] = 0 \/ p[x] \in done) /\ \A y \in Kids(p, p[x]) : y < x => y \in done
Configure(x) ==
  LET u == p[x] IN
  IF u = 0 THEN [cur EXCEPT ![x] = Min(rcm, ss[x])]
  ELSE IF cur[x] = cur[u] THEN cur
  ELSE IF ss[x] < cur[u] /\ p[u] = 0
       THEN LET m == Min(ss[x], ss[u]) IN
            [y \in DOMAIN p |-> IF y = u THEN m ELSE IF y = x THEN Min(m, ss[x]) ELSE IF p[y] = u /\ cur[y] > m THEN m ELSE cur[y]]
       ELSE [cur EXCEPT ![x] = Min(cur[u], ss[x])]
Next == \E x \in DOMAIN p : Ready(x) /\ cur' = Configure(x) /\ done' = done \cup {x} /\ UNCHANGED <<p, ss, rcm>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Legal1(x) == /\ cur[x] <= ss[x]
             /\ \A y \in Anc(p, x) \ {0} : cur[x] <= ss[y]
             /\ cur[x] <= rcm
             /\ p[x] # 0 => cur[x] <= cur[p[x]]
             /\ (IF p[x] = 0 THEN FALSE ELSE p[p[x]] = 0) => cur[p[x]] <= ss[x]     \* a root port suits what is directly below it
Final == done = DOMAIN p => \A x \in DOMAIN p : Legal1(x)
Ends == <>(done = DOMAIN p)
=============================================================================
