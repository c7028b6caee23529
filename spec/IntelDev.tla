------------------------------ MODULE IntelDev -------------------------------
(* The configuration output (tl_cfg), credit and interrupt interfaces of the
   Stratix 10 (H-tile, L-tile) and P-Tile hard IP as functions of the
   configuration space of a function.  A register's value is the set of its
   bits; a word of the configuration output is described by a list of pieces
   <<first bit of the word, register, first bit in it, width>>.              *)
EXTENDS UsCfg

(* o: dword offsets [PM, EXP, MSI, MSIX, AER]; a register of -1 does not exist: the piece is zero *)
R(b, k) == IF b < 0 THEN -1 ELSE b + k
Cmd == 1
Htile(o) == <<
  << <<31, R(o.EXP, 10), 8, 1>>, <<30, R(o.EXP, 2), 11, 1>>, <<29, R(o.EXP, 2), 4, 1>>, <<15, Cmd, 1, 1>>, <<14, R(o.EXP, 10), 9, 1>>, <<13, Cmd, 6, 1>>, <<12, Cmd, 8, 1>>,
     <<11, R(o.EXP, 2), 2, 1>>, <<10, R(o.EXP, 2), 1, 1>>, <<9, R(o.EXP, 2), 0, 1>>, <<8, R(o.EXP, 2), 3, 1>>, <<7, Cmd, 2, 1>>, <<6, R(o.EXP, 2), 8, 1>>,
     <<3, R(o.EXP, 2), 12, 3>>, <<0, R(o.EXP, 2), 5, 3>> >>,
  << <<15, R(o.PM, 1), 3, 1>>, <<14, R(o.EXP, 4), 3, 1>>, <<13, Cmd, 10, 1>>, <<8, R(o.EXP, 0), 25, 5>>, <<4, R(o.EXP, 6), 10, 1>>, <<2, R(o.EXP, 6), 6, 2>>, <<0, R(o.EXP, 6), 8, 2>> >>,
  << <<28, R(o.EXP, 4), 16, 4>>, <<7, R(o.EXP, 10), 5, 1>>, <<6, R(o.EXP, 10), 6, 1>> >>,
  << <<0, R(o.MSI, 1), 0, 32>> >>,
  << <<0, R(o.MSI, 2), 0, 32>> >>,
  << <<0, R(o.MSI, 4), 0, 32>> >>,
  << <<16, R(o.MSI, 3), 0, 16>>, <<15, R(o.EXP, 7), 2, 1>>, <<14, R(o.EXP, 7), 1, 1>>, <<13, R(o.EXP, 7), 0, 1>>, <<8, R(o.AER, 12), 27, 5>>,
     <<6, R(o.MSIX, 0), 30, 1>>, <<5, R(o.MSIX, 0), 31, 1>>, <<2, R(o.MSI, 0), 20, 3>>, <<1, R(o.MSI, 0), 23, 1>>, <<0, R(o.MSI, 0), 16, 1>> >>,
  << <<0, R(o.AER, 2), 0, 32>> >>,
  << <<0, R(o.AER, 5), 0, 32>> >>,
  << <<0, R(o.AER, 3), 0, 32>> >> >>
Ltile(o) == <<
  << <<31, R(o.EXP, 10), 8, 1>>, <<30, R(o.EXP, 2), 11, 1>>, <<29, R(o.EXP, 2), 4, 1>>, <<15, Cmd, 1, 1>>, <<14, R(o.EXP, 10), 9, 1>>, <<8, R(o.EXP, 4), 20, 6>>, <<7, Cmd, 2, 1>>,
     <<6, R(o.EXP, 2), 8, 1>>, <<3, R(o.EXP, 2), 12, 3>>, <<0, R(o.EXP, 2), 5, 3>> >>,
  << <<31, R(o.EXP, 7), 2, 1>>, <<30, R(o.EXP, 7), 1, 1>>, <<29, R(o.EXP, 7), 0, 1>>, <<24, R(o.AER, 12), 27, 5>>, <<18, R(o.EXP, 4), 20, 6>>, <<17, R(o.PM, 1), 3, 1>>,
     <<16, R(o.EXP, 4), 3, 1>>, <<13, Cmd, 10, 1>>, <<8, R(o.EXP, 0), 25, 5>>, <<4, R(o.EXP, 6), 10, 1>>, <<2, R(o.EXP, 6), 6, 2>>, <<0, R(o.EXP, 6), 8, 2>> >>,
  << <<12, R(o.EXP, 4), 16, 4>>, <<5, R(o.EXP, 10), 5, 1>>, <<4, R(o.EXP, 10), 6, 1>> >>,
  << <<0, R(o.MSI, 1), 0, 32>> >>,
  << <<0, R(o.MSI, 2), 0, 32>> >>,
  << <<0, R(o.MSI, 4), 0, 32>> >>,
  << <<16, R(o.MSI, 3), 0, 16>>, <<6, R(o.MSIX, 0), 30, 1>>, <<5, R(o.MSIX, 0), 31, 1>>, <<2, R(o.MSI, 0), 20, 3>>, <<1, R(o.MSI, 0), 23, 1>>, <<0, R(o.MSI, 0), 16, 1>> >>,
  << <<6, R(o.EXP, 4), 16, 4>>, <<0, R(o.EXP, 4), 20, 6>> >> >>
Ptile(o) == <<
  << <<15, Cmd, 1, 1>>, <<14, R(o.EXP, 10), 9, 1>>, <<13, Cmd, 6, 1>>, <<12, Cmd, 8, 1>>, <<11, R(o.EXP, 2), 2, 1>>, <<10, R(o.EXP, 2), 1, 1>>, <<9, R(o.EXP, 2), 0, 1>>, <<8, R(o.EXP, 2), 3, 1>>,
     <<7, Cmd, 2, 1>>, <<6, R(o.EXP, 2), 8, 1>>, <<3, R(o.EXP, 2), 12, 3>>, <<0, R(o.EXP, 2), 5, 3>> >>,
  << <<15, R(o.EXP, 10), 8, 1>>, <<14, R(o.EXP, 2), 11, 1>>, <<13, R(o.EXP, 2), 4, 1>> >>,
  << <<15, R(o.PM, 1), 3, 1>>, <<14, R(o.EXP, 4), 3, 1>>, <<13, Cmd, 10, 1>>, <<8, R(o.EXP, 0), 25, 5>>, <<4, R(o.EXP, 6), 10, 1>>, <<2, R(o.EXP, 6), 6, 2>>, <<0, R(o.EXP, 6), 8, 2>> >>,
  << >>,
  << <<14, R(o.EXP, 10), 7, 1>>, <<7, R(o.EXP, 10), 5, 1>>, <<6, R(o.EXP, 10), 6, 1>> >>,
  << <<12, R(o.EXP, 4), 16, 4>> >>,
  << <<0, R(o.MSI, 1), 0, 16>> >>, << <<0, R(o.MSI, 1), 16, 16>> >>, << <<0, R(o.MSI, 2), 0, 16>> >>, << <<0, R(o.MSI, 2), 16, 16>> >>,
  << <<0, R(o.MSI, 4), 0, 16>> >>, << <<0, R(o.MSI, 4), 16, 16>> >>,
  << <<15, R(o.EXP, 7), 2, 1>>, <<14, R(o.EXP, 7), 1, 1>>, <<13, R(o.EXP, 7), 0, 1>>, <<8, R(o.AER, 12), 27, 5>>, <<7, R(o.MSI, 0), 26, 1>>, <<6, R(o.MSIX, 0), 30, 1>>, <<5, R(o.MSIX, 0), 31, 1>>,
     <<2, R(o.MSI, 0), 20, 3>>, <<1, R(o.MSI, 0), 23, 1>>, <<0, R(o.MSI, 0), 16, 1>> >>,
  << <<0, R(o.MSI, 3), 0, 16>> >>,
  << <<0, R(o.AER, 2), 0, 16>> >>, << <<0, R(o.AER, 2), 16, 16>> >>, << <<0, R(o.AER, 5), 0, 16>> >>, << <<0, R(o.AER, 5), 16, 16>> >>, << <<0, R(o.AER, 3), 0, 16>> >>, << <<0, R(o.AER, 3), 16, 16>> >>,
  << >>, << >>, << >>, << >>, << >>, << >>, << >>, << >>,
  << <<0, R(o.EXP, 4), 20, 6>> >>, << <<0, R(o.MSI, 3), 16, 16>> >>, << >>, << >> >>
Words(fam, o) == CASE fam = "h" -> Htile(o) [] fam = "l" -> Ltile(o) [] fam = "t" -> Ptile(o)
(* the number of the function's bus sits in word 0 or 1 *)
BusBits(fam, w, bus) == IF fam = "t" THEN (IF w = 2 THEN {k \in 0..7 : (bus \div (2 ^ k)) % 2 = 1} ELSE {})
                        ELSE IF w = 1 THEN {k + 16 : k \in {k \in 0..7 : (bus \div (2 ^ k)) % 2 = 1}} ELSE {}
Piece(sp, p) == IF p[2] \notin DOMAIN sp THEN {} ELSE {b - p[3] + p[1] : b \in {b \in sp[p[2]].v : p[3] <= b /\ b < p[3] + p[4]}}
Word(fam, sp, o, bus, w) == LET ps == Words(fam, o)[w] IN BusBits(fam, w, bus) \cup UNION {Piece(sp, ps[i]) : i \in DOMAIN ps}
(* a function without the MSI structure: whether its address would have had 64 bits says nothing *)
Void(fam, o, w) == IF o.MSI < 0 /\ ((fam = "t" /\ w = 13) \/ (fam # "t" /\ w = 7)) THEN {1} ELSE {}

(* bits of the configuration space every piece occupies in its word: pieces of a word must not overlap *)
Span(p) == p[1]..(p[1] + p[4] - 1)
Disjoint(fam, o) == \A w \in DOMAIN Words(fam, o) : LET ps == Words(fam, o)[w] IN
  /\ \A i, j \in DOMAIN ps : i # j => Span(ps[i]) \cap Span(ps[j]) = {}
  /\ \A i \in DOMAIN ps : Span(ps[i]) \cap BusBits(fam, w, 255) = {} /\ \A b \in Span(ps[i]) : b < (IF fam = "t" THEN 16 ELSE 32)

(* room for completions between the link and the user's stream *)
RxLimit(fam, port) == IF fam # "t" THEN [h |-> 770, d |-> 2432]
                      ELSE CASE port = 0 -> [h |-> 1144, d |-> 2888] [] port = 1 -> [h |-> 572, d |-> 1444] [] OTHER -> [h |-> 286, d |-> 722]
=============================================================================
