------------------------------- MODULE RouteMC -------------------------------
(* Hop-by-hop routing as PCIe components do it, each looking only at its own
   registers, against the rules stated over the whole hierarchy: every
   hierarchy of up to N nodes, every request, configuration access and
   completion from every source to every address or ID, claimed or not.
   Addresses: endpoint x owns [16x, 16x+8), the host [0, 8); a bridge window is
   the hull of what lies below it, so there are holes inside and between them;
   with Slack the windows reach up to the next node's.                      *)
EXTENDS RouteRules, Trees, SequencesExt
CONSTANTS N, Slack

VARIABLES rt, e, pos, hop
vars == <<rt, e, pos, hop>>

Rank(p, x) == Cardinality({y \in Kids(p, p[x]) : y < x})
A(n) == <<0, 0, 0, n>>
Topo(p) ==
  LET ports == {x \in DOMAIN p : Port(p, x)}
      lk == CHOOSE s \in [1..Cardinality(ports) -> ports] : \A i, j \in DOMAIN s : i < j => s[i] < s[j] IN
  [fns |-> [x \in DOMAIN p |-> [f |-> x, k |-> Kind(p, x), up |-> p[x], bars |-> <<>>,
                               dv |-> IF Kind(p, x) \in {"rp", "dp"} THEN Rank(p, x) + 1 ELSE 0,
                               fn |-> IF Kind(p, x) = "ep" THEN Rank(p, x) ELSE 0]],
   links |-> [i \in DOMAIN lk |-> [l |-> i, up |-> lk[i], dn |-> IF \E y \in Kids(p, lk[i]) : IsUp(p, y) THEN "sw" ELSE "ep"]]]
Hw(t, p) ==
  [fns |-> [x \in DOMAIN p |->
     LET E == {y \in Subtree(t, x) : Kind(p, y) = "ep"}
         lo == IF E = {} THEN A(1) ELSE A(16 * SMin(E))
         hi == IF E = {} THEN A(0) ELSE A(16 * SMax(E) + (IF Slack THEN 15 ELSE 7)) IN
     [f |-> x, id |-> IdOf(t, x), cmd |-> 7, pri |-> Pri(t, x), sec |-> Sec(t, x), sub |-> Sub(t, x),
      iob |-> A(1), iol |-> A(0), mb |-> lo, ml |-> hi, pb |-> A(1), pl |-> A(0)]]]
Map(p) == [regs |-> SetToSeq({[f |-> x, io |-> 0, base |-> A(16 * x), last |-> A(16 * x + 7)] : x \in {0} \cup {y \in DOMAIN p : Kind(p, y) = "ep"}})]

Sources(r) == {0} \cup r.eps
Ids(r) == {b * 256 + 8 * d + f : b \in 0..(Cardinality(r.nodes) + 1), d \in 0..2, f \in 0..2}
Tlps(r) ==
  UNION {
    {[ty |-> t, rid |-> IF s = 0 THEN 0 ELSE r.idof[s], a |-> A(n), cid |-> 0, src |-> s] : t \in {"MRd", "MWr"}, n \in {8 * k + 4 : k \in 0..(2 * Cardinality(r.nodes) + 3)}, s \in Sources(r)},
    {[ty |-> IF i < 256 THEN "CfgRd0" ELSE "CfgRd1", rid |-> 0, a |-> A(0), cid |-> i, src |-> 0] : i \in Ids(r)},
    {[ty |-> "CplD", rid |-> i, a |-> A(0), cid |-> IF s = 0 THEN 0 ELSE r.idof[s], src |-> s] : i \in Ids(r), s \in Sources(r)}}

Init ==
  \E p \in Shapes(N) :
    /\ rt = LET t == Topo(p) IN Routes(t, Hw(t, p), Map(p))
    /\ e \in Tlps(rt)
    /\ pos = IF e.src = 0 THEN <<"bus", 0, 0>> ELSE <<"up", rt.up[e.src]>>
    /\ hop = IF e.src = 0 THEN 0 ELSE rt.up[e.src]

Kid(x) == {y \in rt.nodes : rt.up[y] = x}
Bus(x) == IF x = 0 THEN 0 ELSE rt.win[x].sec
(* what a function itself claims *)
Match(x) == IF e.ty \in Cfg0 THEN rt.idof[x] % 256 = e.cid % 256
            ELSE IF e.ty \in Cfg1 THEN FALSE
            ELSE IF e.ty \in CplT THEN rt.idof[x] = e.rid
            ELSE \E i \in rt.items : i.f = x /\ AIn(e.a, i.base, i.last)
Second(b) == e.ty \notin Cfg0 /\ Covers(rt, b, e)
Conv(b) == IF e.ty \in Cfg1 /\ e.cid \div 256 = Bus(b) THEN [e EXCEPT !.ty = "CfgRd0"] ELSE e

(* on the bus below bridge pos[2], where it came in through pos[3] *)
OnBus ==
  /\ pos[1] = "bus"
  /\ LET u == pos[2] o == pos[3] k == {x \in Kid(u) : x # o /\ (Match(x) \/ (rt.kind[x] # "ep" /\ Second(x)))} IN
     IF u = 0 /\ o = 0 /\ e.ty \in CplT /\ e.rid = 0 THEN pos' = <<"rcv", 0>>
     ELSE IF k # {} THEN pos' = <<"pri", CHOOSE x \in k : \A y \in k : x <= y>>
     ELSE IF u # o /\ (u = 0 \/ (~Match(u) /\ ~Second(u))) THEN pos' = IF u = 0 THEN <<"rcv", 0>> ELSE <<"up", rt.up[u]>>
     ELSE IF u # o /\ Match(u) THEN pos' = <<"rcv", u>>
     ELSE IF u = 0 /\ e.ty \notin CfgT \cup CplT THEN pos' = <<"rcv", 0>>
     ELSE pos' = <<"gone">>
  /\ hop' = IF pos'[1] = "up" THEN pos'[2] ELSE 0
  /\ UNCHANGED <<rt, e>>

(* at the primary side of a function *)
OnPri ==
  /\ pos[1] = "pri"
  /\ LET x == pos[2] IN
     IF Match(x) THEN pos' = <<"rcv", x>> /\ e' = e /\ hop' = 0
     ELSE IF rt.kind[x] = "ep" \/ ~Second(x) THEN pos' = <<"gone">> /\ e' = e /\ hop' = 0
     ELSE IF rt.kind[x] = "up" THEN pos' = <<"bus", x, x>> /\ e' = Conv(x) /\ hop' = 0
     ELSE pos' = <<"down", x>> /\ e' = Conv(x) /\ hop' = x
  /\ UNCHANGED rt

(* at the device below port pos[2] *)
OnDown ==
  /\ pos[1] = "down"
  /\ LET k == Kid(pos[2]) IN
     IF \E y \in k : rt.kind[y] = "up" THEN pos' = <<"pri", CHOOSE y \in k : TRUE>>
     ELSE LET m == {y \in k : Match(y)} IN pos' = IF m = {} THEN <<"gone">> ELSE <<"pri", CHOOSE y \in m : TRUE>>
  /\ hop' = 0 /\ UNCHANGED <<rt, e>>

(* at the secondary side of port pos[2] *)
OnUp ==
  /\ pos[1] = "up"
  /\ LET b == pos[2] IN
     pos' = IF Match(b) THEN <<"rcv", b>> ELSE IF Second(b) THEN <<"gone">> ELSE <<"bus", rt.up[b], b>>
  /\ hop' = 0 /\ UNCHANGED <<rt, e>>

Next == OnBus \/ OnPri \/ OnDown \/ OnUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

LinkOf(b) == CHOOSE l \in DOMAIN rt.lup : rt.lup[l] = b
Crossing == hop # 0 => OnW(rt, e @@ [l |-> LinkOf(hop), d |-> IF pos[1] = "up" THEN 1 ELSE 0]) = {}
Delivered == pos[1] = "rcv" => OnRcv(rt, e @@ [f |-> pos[2]]) = {}
(* two functions of one device never reach each other over the link below their port *)
SamePort(x, y) == x # 0 /\ y # 0 /\ rt.up[x] = rt.up[y]
Dropped == pos[1] = "gone" => LET D == Dest(rt, e) IN D = -1 \/ SamePort(D, e.src)
Ends == <>(pos[1] \in {"rcv", "gone"})
=============================================================================
