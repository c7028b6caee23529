----------------------------- MODULE ConfigGen -----------------------------
(* Prints the field table: owner, name of the value, bits it has.            *)
EXTENDS ConfigSpace, Json
Owners == [FN |-> Common, T0 |-> Type0, T1 |-> Type1, PM |-> Pm, EXP |-> Exp, MSI |-> Msi(TRUE, TRUE, TRUE), MSIX |-> Msix, AER |-> Aer, EXP2 |-> Exp2(4)]
VARIABLE done
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ \A o \in DOMAIN Owners : \A k \in DOMAIN Owners[o] : LET f == Owners[o][k] IN
             f.n \in {"#", "#next"} \/ PrintT("GEN " \o ToJson(<<o, f.n, f.ab + f.w>>))
Spec == Init /\ [][Next]_done
=============================================================================
