------------------------------- MODULE UsCfgMC -------------------------------
(* The flow control outputs over a link that wraps its counters, next to an
   interrupt interface whose function is enabled, masked and unmasked freely:
   the credits shown are the ones that are left, and every accepted interrupt
   is delivered once it is unmasked.                                           *)
EXTENDS UsCfg, TLC
CONSTANTS Inits, Top, Vecs
VARIABLES init, used, rel, sp, net, want
vars == <<init, used, rel, sp, net, want>>
O == [EXP |-> -1, MSI |-> 10, MSIX |-> -1]
Reg(s) == [v |-> s]
K == 1
At(n) == [k \in Kinds |-> IF k = K THEN n ELSE 0]
Sp0 == 1 :> {} @@ 10 :> {24, 17} @@ 13 :> {} @@ 14 :> {}
Init == /\ init \in Inits /\ used = 0 /\ rel = 0
        /\ sp = Sp0 /\ net = 0 /\ want = 0
Sp == [r \in DOMAIN sp |-> Reg(sp[r])]
CanSend == init = 0 \/ used - rel < init
Send == /\ sp = Sp0 /\ want = 0 /\ CanSend /\ used < Top /\ used' = used + 1 /\ UNCHANGED <<init, rel, sp, net, want>>
Release == /\ rel < used /\ rel' = used /\ UNCHANGED <<init, used, sp, net, want>>
\* the rest: a configuration write of the host, an interrupt request
Settle(s) == LET S == [r \in DOMAIN s |-> Reg(s[r])]
                 go == MsiReady(S, O) IN
  /\ sp' = [s EXCEPT ![14] = @ \ go] /\ net' = net + Cardinality(go)
Cfg == /\ used = 0
       /\ \/ \E b \in BOOLEAN : sp' = [sp EXCEPT ![1] = IF b THEN {2} ELSE {}] /\ net' = net
          \/ \E b \in SUBSET {16, 20} : Settle([sp EXCEPT ![10] = {24, 17} \cup b])
          \/ \E m \in SUBSET Vecs : Settle([sp EXCEPT ![13] = m])
       /\ UNCHANGED <<init, used, rel, want>>
Ask == /\ used = 0 /\ net < 3
       /\ \E k \in Vecs : /\ MsiLegal(Sp, O, {k}) /\ (Bme(Sp) \/ MsiMasked(Sp, O, {k}))
            /\ IF MsiMasked(Sp, O, {k}) THEN /\ sp' = [sp EXCEPT ![14] = @ \cup {k}] /\ net' = net
                                                /\ want' = want + (IF k \in sp[14] THEN 0 ELSE 1)
               ELSE net' = net + 1 /\ want' = want + 1 /\ UNCHANGED sp
       /\ UNCHANGED <<init, used, rel>>
Next == Send \/ Release \/ Cfg \/ Ask
Spec == Init /\ [][Next]_vars
Left == Avail(At(init), At(used), At(rel))[K]
Credits == IF init = 0 THEN Left = Mod(K) - 1 ELSE Left = init - (used - rel)
Counters == init = 0 \/ Left = (Limit(At(init), At(rel))[K] - Consumed(At(init), At(used))[K]) % Mod(K)
Delivered == want = net + Cardinality(sp[14])
Exclusive == \A k \in Vecs : MsiGood(Sp, O, {k}) => MsiOn(Sp, O) /\ Bme(Sp) /\ k < 2
=============================================================================
