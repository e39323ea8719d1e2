-------------------------------- MODULE MCRng --------------------------------
(***************************************************************************)
(* The design of the Fiat-Shamir generator: what is hashed when seeding    *)
(* and absorbing, over an ideal hash (a new content gets a new digest).    *)
(* Digests are symbols of a fixed length that callers may use in their own *)
(* data.  Histories (what a generator was seeded with and absorbed) and    *)
(* digests must determine each other.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Separated,   \* a last byte tells seeding from absorbing
          Ops,         \* how many operations
          MaxData      \* longest data

VARIABLES digs,        \* contents hashed so far; the i-th has digest <<"d", i>>
          gens         \* histories reached and their digests
vars == <<digs, gens>>

Byte(b) == <<"b", b>>
Dig(i) == <<"d", i>>
Alphabet == {Byte(0), Byte(1)} \cup {Dig(i) : i \in 1 .. Len(digs)}
Data == UNION {[1 .. n -> Alphabet] : n \in 0 .. MaxData}
SeedContent(s) == IF Separated THEN s \o <<Byte(0)>> ELSE s
AbsorbContent(d, old) == IF Separated THEN d \o <<old, Byte(1)>> ELSE d \o <<old>>
Look(c) == {i \in 1 .. Len(digs) : digs[i] = c}
Hash(c, hist) ==
  LET k == Look(c)  i == IF k = {} THEN Len(digs) + 1 ELSE CHOOSE i \in k : TRUE
  IN /\ digs' = IF k = {} THEN Append(digs, c) ELSE digs
     /\ gens' = gens \cup {[hist |-> hist, dig |-> Dig(i)]}

Init == digs = <<>> /\ gens = {}
Seed == \E s \in Data : Hash(SeedContent(s), <<s>>)
Absorb == \E g \in gens, d \in Data : Hash(AbsorbContent(d, g.dig), Append(g.hist, d))
Next == Cardinality(gens) < Ops /\ (Seed \/ Absorb)
Spec == Init /\ [][Next]_vars
Determined == \A g, h \in gens : (g.hist = h.hist) <=> (g.dig = h.dig)
=============================================================================
