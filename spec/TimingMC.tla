------------------------------ MODULE TimingMC ------------------------------
(* One direction of a link with abstract time: packets of 1..S units are handed
   over at any time, wait in line, keep the link busy for their size and arrive D
   later.  The checks made of recorded runs, which only see hand-over and arrival
   times (Judge), accept every behaviour; the link carries at most one unit per
   unit of time (Capacity), keeps order, and never idles while something waits.
   Wrong says how an altered link behaves: it must be refused (see cfg).        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS S, D, N, H, Wrong
VARIABLES now, sub, wait, cur, free, fly, arr
vars == <<now, sub, wait, cur, free, fly, arr>>
\* sub: hand-over times; wait: queue of <<id, size>>; free: the link is busy up to here; fly: <<id, size, arrival>>; arr: arrived, in order
Init == now = 0 /\ sub = <<>> /\ wait = <<>> /\ cur = 0 /\ free = 0 /\ fly = <<>> /\ arr = <<>>
Submit == /\ Len(sub) < N /\ \E s \in 1..S : wait' = Append(wait, <<Len(sub) + 1, s>>)
          /\ sub' = Append(sub, now) /\ UNCHANGED <<now, cur, free, fly, arr>>
Dur(s) == IF Wrong = "fast" /\ s > 1 THEN s - 1 ELSE IF Wrong = "slow" /\ s > 1 THEN s + 1 ELSE s
CanStart == wait # <<>> /\ (free <= now \/ Wrong = "overlap")
Start == /\ CanStart
         /\ LET x == wait[1] IN
            /\ free' = now + Dur(x[2]) /\ fly' = Append(fly, <<x[1], x[2], now + Dur(x[2]) + D>>)
            /\ wait' = Tail(wait)
         /\ UNCHANGED <<now, sub, cur, arr>>
Due == fly # <<>> /\ fly[1][3] <= now
Arrive == /\ Due /\ arr' = Append(arr, <<fly[1][1], fly[1][2], now>>) /\ fly' = Tail(fly) /\ UNCHANGED <<now, sub, wait, cur, free>>
Tick == /\ now < H /\ (~CanStart \/ Wrong = "lazy") /\ ~Due /\ now' = now + 1 /\ UNCHANGED <<sub, wait, cur, free, fly, arr>>
Next == Submit \/ Start \/ Arrive \/ Tick
Spec == Init /\ [][Next]_vars
Begin(i) == arr[i][3] - D - arr[i][2]
End(i) == IF i = 0 THEN 0 ELSE arr[i][3] - D
Mx(a, b) == IF a > b THEN a ELSE b
(* the verdict on recorded arrivals *)
Judge == \A i \in DOMAIN arr : Begin(i) >= End(i - 1) /\ Begin(i) >= sub[arr[i][1]] /\ Begin(i) <= Mx(sub[arr[i][1]], End(i - 1))
RECURSIVE Sum(_)
Sum(i) == IF i = 0 THEN 0 ELSE arr[i][2] + Sum(i - 1)
Capacity == Sum(Len(arr)) <= Mx(0, now - D)
Order == \A i \in DOMAIN arr : arr[i][1] = i
=============================================================================
