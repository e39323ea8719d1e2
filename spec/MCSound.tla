-------------------------------- MODULE MCSound --------------------------------
(***************************************************************************)
(* Soundness of one round, for an algebraic prover: group elements are     *)
(* given by their representation over the keys, so commitments are vectors *)
(* and an equation between group elements is an equation between vectors.  *)
(* Then a false statement survives a round for a few challenges only:      *)
(*  - whatever cross terms are sent, at most 3 challenges let the folded   *)
(*    commitment be one of the folded key, unless the cross terms are the  *)
(*    honest ones;                                                         *)
(*  - with honest cross terms of the commitments, a false inner product    *)
(*    survives at most 2 challenges, whatever cross terms of it are sent;  *)
(*  - SIPP: a false value survives at most 2 challenges;                   *)
(*  - key openings and KZG: a polynomial other than the expected one       *)
(*    passes at no more points than its degree, and only with the value    *)
(*    it has there;                                                        *)
(*  - aggregation: a batch with an invalid proof passes for fewer          *)
(*    combination scalars than it has proofs.                              *)
(* One coordinate of each half suffices: the equations are coordinatewise. *)
(***************************************************************************)
EXTENDS RippCalls

CONSTANT Part
VARIABLE s
NZ == F \ {0}
N0 == [w |-> "start"]

\* --- commitments of the left vector (key folded as left + x^-1 right)
FoldF(com, l, r, x) == [i \in 1 .. 2 |-> FoldCom(<<com[i], 0, 0>>, <<l[i], 0, 0, r[i], 0, 0>>, Inv(x), x)[1]]
InSpan(v, k) == \E a \in F : v = VScale(k, a)
\* the challenge is the inverse of the one the key is folded with
FoldedKey(x) == <<1, x>>
AccA(A, L, R) == {x \in NZ : InSpan(FoldF(A, L, R, x), FoldedKey(x))}
HonestA(A, L, R) == L = <<A[2], 0>> /\ R = <<0, A[1]>>
\* --- the inner product
AccT(A, B, t, l, r) == {x \in NZ : (t + Mul(l, Inv(x)) + Mul(r, x)) % P = Mul((A[1] + A[2] * Inv(x)) % P, (B[1] + B[2] * x) % P)}
\* --- SIPP, on its own machine
AccS(a, b, v, l, r) ==
  {x \in NZ : LET m0 == SippFeed(SippInit(a, b, <<1, 1>>, v, <<<<l, r>>>>), 1, [x |-> 0])
                  m1 == SippFeed(m0, 2, [x |-> x]) IN SippHolds(m1)}
\* --- polynomials of degree 2
Pt(f, z) == PEval(f, z)
\* product of (X - z) and q
TimesLin(q, z) == [i \in 1 .. Len(q) + 1 |-> ((IF i > 1 THEN q[i - 1] ELSE 0) - (IF i <= Len(q) THEN z * q[i] ELSE 0)) % P]
\* an opening of f at z with value v by an algebraic prover
Opens(f, z, v, q) == [f EXCEPT ![1] = (@ - v) % P] = TimesLin(q, z)
\* --- aggregation of two or three proofs (public input fixed)
G == [alpha |-> 1, beta |-> 2, gamma |-> 1, delta |-> 2, abc |-> <<1, 1>>]
AccR(g, inp, pfs) ==
  {r \in NZ : LET rv == Powers(r, Len(pfs)) col(j) == [i \in 1 .. Len(pfs) |-> pfs[i][j]]
              IN Combined(g, inp, r, Dot(VMul(col(1), rv), col(2)), Dot(col(3), rv))}

Init == s = N0
Pairs == F \X F
Next ==
  /\ s = N0
  /\ CASE Part = "A" -> \E A \in Pairs, L \in Pairs, R \in Pairs : s' = [w |-> "A", A |-> A, L |-> L, R |-> R]
       [] Part = "T" -> \E A \in Pairs, B \in Pairs, t \in F, l \in F, r \in F :
                          s' = [w |-> "T", A |-> A, B |-> B, t |-> t, l |-> l, r |-> r]
       [] Part = "S" -> \E A \in Pairs, B \in Pairs, t \in F, l \in F, r \in F :
                          s' = [w |-> "S", A |-> A, B |-> B, t |-> t, l |-> l, r |-> r]
       [] Part = "K" -> \E f \in F \X F \X F, x \in NZ, y \in NZ, z \in F, v \in F, q \in Pairs :
                          s' = [w |-> "K", f |-> f, x |-> x, y |-> y, z |-> z, v |-> v, q |-> q]
       [] Part = "R" -> \E i \in F, j \in F, a \in F \X F \X F, b \in F \X F \X F :
                          s' = [w |-> "R", inp |-> <<<<i>>, <<j>>>>, pfs |-> <<a, b>>]
Spec == Init /\ [][Next]_s

RoundA == s.w = "A" => LET acc == AccA(s.A, s.L, s.R) IN
            IF HonestA(s.A, s.L, s.R) THEN acc = NZ ELSE Cardinality(acc) <= 3 \/ P <= 4
RoundT == s.w = "T" => LET acc == AccT(s.A, s.B, s.t, s.l, s.r) IN
            IF s.t # Dot(s.A, s.B) THEN Cardinality(acc) <= 2
            ELSE s.l = Mul(s.A[2], s.B[1]) /\ s.r = Mul(s.A[1], s.B[2]) => acc = NZ
RoundS == s.w = "S" => LET acc == AccS(s.A, s.B, s.t, s.l, s.r) IN
            IF s.t # Dot(s.A, s.B) THEN Cardinality(acc) <= 2
            ELSE <<s.l, s.r>> = SippCross(SippInit(s.A, s.B, <<1, 1>>, s.t, <<>>)) => acc = NZ
Keys == s.w = "K" =>
  LET p == KeyPoly(<<s.x>>, s.y) IN
  /\ s.f # p => Cardinality({z \in F : Pt(s.f, z) = Pt(p, z)}) <= 2
  /\ Pt(p, s.z) = KeyPolyAt(<<s.x>>, s.y, s.z)
  /\ Opens(s.f, s.z, s.v, s.q) => s.v = Pt(s.f, s.z) /\ s.q = PQuot(s.f, s.z)
  /\ Opens(s.f, s.z, Pt(s.f, s.z), PQuot(s.f, s.z))
Batch == s.w = "R" =>
  LET acc == AccR(G, s.inp, s.pfs)
      valid == \A i \in 1 .. 2 : ProofValid(G, s.inp[i], s.pfs[i])
  IN IF valid THEN acc = NZ ELSE Cardinality(acc) <= 1
\* (known finding) the combination scalar does not depend on the inputs: for every valid batch and every
\* scalar there are other inputs, chosen after it, that pass
AfterR == s.w = "R" =>
  ((\A i \in 1 .. 2 : ProofValid(G, s.inp[i], s.pfs[i])) =>
     \A r \in NZ : LET in2 == <<<<(s.inp[1][1] + r) % P>>, <<(s.inp[2][1] - 1) % P>>>>
                   IN r \in AccR(G, in2, s.pfs) /\ \E i \in 1 .. 2 : ~ProofValid(G, in2[i], s.pfs[i]))
=============================================================================
