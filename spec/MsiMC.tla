------------------------------- MODULE MsiMC -------------------------------
(* Functions that allocate, free, signal, mask and unmask in any order.
   MSI blocks have 2^M vectors.  Every message names the vector it was meant
   for; a vector signalled while masked is delivered once after unmasking.   *)
EXTENDS Msi, TLC
CONSTANTS N, M, X, S, A   \* functions, log2 of the MSI block, MSI-X table sizes, signals and allocations per function
VARIABLES limit, own, mode, base, size, mask, pend, left, net, bad, sent, got
vars == <<limit, own, mode, base, size, mask, pend, left, net, bad, sent, got>>
Fn == 1..N
Put(b, x, n) == [y \in DOMAIN b \cup {x} |-> (IF y \in DOMAIN b THEN b[y] ELSE 0) + (IF y = x THEN n ELSE 0)]
At(b, x) == IF x \in DOMAIN b THEN b[x] ELSE 0
Init == /\ limit = 0 /\ own = << >> /\ mode = [f \in Fn |-> "off"] /\ base = [f \in Fn |-> 0] /\ size = [f \in Fn |-> 0]
        /\ mask = [f \in Fn |-> {}] /\ pend = [f \in Fn |-> {}] /\ left = [f \in Fn |-> <<S, A>>]
        /\ net = << >> /\ bad = FALSE /\ sent = << >> /\ got = << >>
Alloc(f, md, n) ==
  /\ mode[f] = "off" /\ left[f][2] > 0 /\ mode' = [mode EXCEPT ![f] = md] /\ left' = [left EXCEPT ![f][2] = @ - 1]
  /\ IF size[f] >= n THEN UNCHANGED <<limit, own, base, size, bad>>
     ELSE LET b == Base(limit, 2^M) IN
          /\ base' = [base EXCEPT ![f] = b] /\ size' = [size EXCEPT ![f] = n] /\ limit' = b + n
          /\ bad' = (bad \/ \E d \in b..(b + n - 1) : d \in DOMAIN own)
          /\ own' = [d \in DOMAIN own \cup b..(b + n - 1) |-> IF d \in b..(b + n - 1) THEN <<f, d - b>> ELSE own[d]]
  /\ UNCHANGED <<mask, pend, net, sent, got>>
Free(f) == /\ mode[f] # "off" /\ pend[f] = {} /\ mode' = [mode EXCEPT ![f] = "off"]
           /\ UNCHANGED <<limit, own, base, size, mask, pend, left, net, bad, sent, got>>
Data(f, k) == IF mode[f] = "msi" THEN Message(base[f], M, k) ELSE base[f] + k
Wrong(f, k) == ~(Data(f, k) \in DOMAIN own /\ own[Data(f, k)] = <<f, k>>)
Sig(f, k) == /\ mode[f] # "off" /\ left[f][1] > 0 /\ k < (IF mode[f] = "msi" THEN 2^M ELSE size[f])
             /\ left' = [left EXCEPT ![f][1] = @ - 1]
             /\ IF mode[f] = "msi" /\ k \in mask[f] THEN pend' = [pend EXCEPT ![f] = @ \cup {k}] /\ UNCHANGED <<net, bad>>
                ELSE net' = Put(net, Data(f, k), 1) /\ bad' = (bad \/ Wrong(f, k)) /\ UNCHANGED pend
             /\ sent' = Put(sent, base[f] + k, 1)
             /\ UNCHANGED <<limit, own, mode, base, size, mask, got>>
RECURSIVE PutAll(_, _)
PutAll(b, s) == IF s = {} THEN b ELSE LET x == CHOOSE x \in s : TRUE IN PutAll(Put(b, x, 1), s \ {x})
Mask(f, m) == /\ mode[f] = "msi" /\ m # mask[f] /\ mask' = [mask EXCEPT ![f] = m]
              /\ pend' = [pend EXCEPT ![f] = @ \cap m]
              /\ net' = PutAll(net, {Data(f, k) : k \in pend[f] \ m})
              /\ bad' = (bad \/ \E k \in pend[f] \ m : Wrong(f, k))
              /\ UNCHANGED <<limit, own, mode, base, size, left, sent, got>>
Deliver == \E d \in DOMAIN net : /\ net[d] > 0 /\ net' = Put(net, d, -1) /\ got' = Put(got, d, 1)
             /\ UNCHANGED <<limit, own, mode, base, size, mask, pend, left, bad, sent>>
Next == \/ Deliver
        \/ \E f \in Fn : \/ Alloc(f, "msi", 2^M) \/ (\E n \in X : Alloc(f, "msix", n)) \/ Free(f)
                         \/ \E k \in 0..(2^M) : Sig(f, k)
                         \/ \E m \in SUBSET {0, 1} : Mask(f, m)
Spec == Init /\ [][Next]_vars
Reaches == ~bad
Once == \A d \in DOMAIN got \cup DOMAIN net : At(got, d) + At(net, d) <= At(sent, d)
Quiet == (\A d \in DOMAIN net : net[d] = 0) /\ (\A f \in Fn : pend[f] = {}) => \A d \in DOMAIN sent : sent[d] > 0 => At(got, d) > 0
=============================================================================
