------------------------------- MODULE RippAgg -------------------------------
(***************************************************************************)
(* Aggregation of Groth16 proofs.  A proof (a, b, c) is valid for inputs s *)
(* under the key gvk iff  a*b = alpha*beta + (abc_0 + sum s_i abc_i)*gamma *)
(* + c*delta.                                                              *)
(***************************************************************************)
EXTENDS RippArgs

InputsOk(gvk, s) == Len(s) + 1 = Len(gvk.abc)
PublicTerm(gvk, s) == (gvk.abc[1] + Dot(s, Tail(gvk.abc))) % P
ProofValid(gvk, s, pf) ==
  Mul(pf[1], pf[2]) = (Mul(gvk.alpha, gvk.beta) + Mul(PublicTerm(gvk, s), gvk.gamma)
                        + Mul(pf[3], gvk.delta)) % P
Batchable(gvk, inputs) == inputs # <<>> /\ \A i \in 1 .. Len(inputs) : InputsOk(gvk, inputs[i])

\* the random combination of all pairing product equations
Combined(gvk, inputs, r, ipab, aggc) ==
  LET rv == TLCEval(Powers(r, Len(inputs)))
      rs == Sum(rv)
      gic == FoldLeftDomain(LAMBDA acc, j :
               (acc + Mul(gvk.abc[j + 1],
                  FoldLeftDomain(LAMBDA s, i : (s + inputs[i][j] * rv[i]) % P, 0, inputs))) % P,
               Mul(gvk.abc[1], rs), Tail(gvk.abc))
  IN ipab = (Mul(Mul(gvk.alpha, rs), gvk.beta) + Mul(gic, gvk.gamma) + Mul(aggc, gvk.delta)) % P
=============================================================================
