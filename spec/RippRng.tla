------------------------------- MODULE RippRng -------------------------------
(***************************************************************************)
(* The Fiat-Shamir generator.  Its state is the history of what it was     *)
(* seeded with and absorbed, and how much it has drawn since (in 4-byte    *)
(* words).  The oracle behind it must be asked for a new seed on every     *)
(* absorption, and the seed must determine and be determined by the        *)
(* history; the output of a draw is a function of seed, position, kind     *)
(* and size, and draws of different keys are unrelated (for outputs long   *)
(* enough not to coincide by chance).                                      *)
(*   g: number of the generator; hist: its history; pos: words drawn       *)
(***************************************************************************)
EXTENDS RippField

RngNew == [hist |-> <<>>, ids |-> <<>>, pos |-> 0]
Words(op, k) == CASE op = "u32" -> 1 [] op = "u64" -> 2 [] OTHER -> (k + 3) \div 4
Bytes(op, k) == CASE op = "u32" -> 4 [] op = "u64" -> 8 [] OTHER -> k
\* a draw: which bytes of which stream
DrawKey(st, op, k) == <<st.hist, st.pos, Bytes(op, k)>>
\* among 48 draws of one kind, every bit of the first eight bytes takes both values
Enough == 48
Bit(x, b) == (x \div (2 ^ b)) % 2
AllBitsVary(outs, op) ==
  LET mine == TLCEval({e \in {outs[i] : i \in 1 .. Len(outs)} : e.key[2] = op /\ e.head # <<>>})
      size == LET ls == {Len(e.head) : e \in mine} IN CHOOSE s \in ls : \A t \in ls : s <= t
      \* judged once, when there are just enough draws
  IN Cardinality(mine) # Enough
     \/ \A j \in 1 .. size, b \in 0 .. 7 : Cardinality({Bit(e.head[j], b) : e \in mine}) = 2
RngStep(st, op, k, ids) ==
  CASE op = "seed"   -> [hist |-> <<k>>, ids |-> ids, pos |-> 0]
    [] op = "absorb" -> [hist |-> Append(st.hist, k), ids |-> ids, pos |-> 0]
    [] OTHER         -> [st EXCEPT !.pos = @ + Words(op, k)]
=============================================================================
