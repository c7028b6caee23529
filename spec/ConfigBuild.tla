----------------------------- MODULE ConfigBuild -----------------------------
(* The configuration space of a function, built from a recording of what the
   function was made of.                                                     *)
EXTENDS VF, ConfigSpace

At(o) == [n \in DOMAIN o |-> Range(o[n])]
Next4(cs, c) ==           \* pointer to the next structure of a list: bits of the byte address
  LET m == {d.off : d \in {x \in cs : x.off > c.off}} IN
  IF m = {} THEN {} ELSE NumBits(4 * (CHOOSE x \in m : \A y \in m : x <= y), 0)
First(cs) == IF cs = {} THEN {} ELSE LET m == {c.off : c \in cs} IN NumBits(4 * (CHOOSE x \in m : \A y \in m : x <= y), 0)

RECURSIVE Join(_)
Join(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN x @@ Join(S \ {x})

Build(e) ==
  LET cs == Range(e.caps)
      std == {c \in cs : c.off < 64}
      ext == cs \ std
      a == ("capabilities_ptr" :> First(std)) @@ At(e.at)
      hd == IF e.k = "br" THEN Common \o Type1 ELSE Common \o Type0
  IN Join({Space(Table(c), At(c.at), Next4(IF c \in std THEN std ELSE ext, c), c.off) : c \in cs})
     @@ Space(hd, a, {}, 0) @@ Bars(Range(e.bars), 4) @@ Rom(e.rom, IF e.k = "br" THEN 14 ELSE 12)
=============================================================================
