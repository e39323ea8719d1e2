------------------------------- MODULE RippArgs -------------------------------
(***************************************************************************)
(* The recursive inner-product argument and its Fiat-Shamir transcript.    *)
(*                                                                         *)
(* One machine describes the four variants the library offers:             *)
(*   ssm = FALSE, tipa = FALSE   GIPA                                      *)
(*   ssm = FALSE, tipa = TRUE    TIPA  (final keys opened against an SRS)  *)
(*   ssm = TRUE,  tipa = FALSE   GIPA for a structured right vector        *)
(*   ssm = TRUE,  tipa = TRUE    TIPA for a structured right vector        *)
(* for both roles (prover, verifier).  Every Fiat-Shamir query is one      *)
(* step: ArgQuery says what has to be hashed, ArgFeed consumes the answer. *)
(* A challenge that is not invertible (or bytes that encode no scalar) is  *)
(* asked for again with the next nonce.                                    *)
(*                                                                         *)
(* Round messages are <<L1, L2, L3, R1, R2, R3>>: commitments to the left  *)
(* and right cross terms under the two keys and to their inner products.   *)
(* Proofs store rounds in reverse order (last round first).                *)
(***************************************************************************)
EXTENDS RippField

\* commitments of a full statement; the structured message is not committed
ComA(cka, ma) == Dot(cka, ma)
ComB(ssm, ckb, mb) == IF ssm THEN 0 ELSE Dot(ckb, mb)
ComT(ckt, ma, mb) == Mul(ckt, Dot(ma, mb))

\* 1, x1, x2, x1*x2, ... : how a position of a key contributes to the folded key
\* (ts: challenges, last round first; the i-th is rescaled by r^(2^(i-1)))
KeyCoefs(ts, r) ==
  FoldLeft(LAMBDA st, x :
             [cs |-> st.cs \o VScale(st.cs, Mul(x, st.p)), p |-> Mul(st.p, st.p)],
           [cs |-> <<1>>, p |-> r], ts).cs
FinalKey(ck, ts) == Dot(ck, KeyCoefs(ts, 1))
\* the same coefficients as a polynomial in X: the SRS key consists of the even powers
KeyPoly(ts, r) ==
  LET c == TLCEval(KeyCoefs(ts, r))
  IN [i \in 1 .. 2 * Len(c) - 1 |-> IF i % 2 = 1 THEN c[(i + 1) \div 2] ELSE 0]
\* its value at z in product form
KeyPolyAt(ts, r, z) ==
  FoldLeft(LAMBDA st, x :
             [v |-> Mul(st.v, (1 + x * st.p) % P), p |-> Mul(st.p, st.p)],
           [v |-> 1, p |-> Mul(Mul(z, z), r)], ts).v
\* folded powers 1, b, b^2, ... under the inverse challenges
FoldedPowers(ts, b) ==
  FoldLeft(LAMBDA st, x :
             [v |-> Mul(st.v, (1 + x * st.p) % P), p |-> Mul(st.p, st.p)],
           [v |-> 1, p |-> b], ts).v
InvAll(ts) == [i \in 1 .. Len(ts) |-> Inv(ts[i])]
\* commitment to the quotient (f - f(z)) / (X - z) under the given powers
OpenPoly(powers, f, z) == Dot(PQuot(f, z), powers)

(***************************************************************************)
(* The machine.                                                            *)
(***************************************************************************)
NoProver == [ma |-> <<>>, mb |-> <<>>, cka |-> <<>>, ckb |-> <<>>, own |-> <<>>]

ArgPhase(tipa, k, n) == IF k < n THEN "rounds" ELSE IF tipa THEN "kzg" ELSE "done"

ArgInit(role, tag, ssm, tipa, stmt, msgs, fck, ckt, pr) ==
  [role |-> role, tag |-> tag, ssm |-> ssm, tipa |-> tipa, ckt |-> ckt,
   stmt |-> stmt,              \* <<commitment a, commitment b (or scalar), commitment t>>
   msgs |-> msgs,              \* round messages, first round first
   k |-> 0, xs |-> <<>>,       \* rounds done and their challenges
   com |-> stmt,               \* statement folded so far
   prevc |-> 0, previd |-> 0, nonce |-> 0,
   ph |-> ArgPhase(tipa, 0, Len(msgs)),
   fck |-> fck, z |-> 0,       \* final keys and the point they are opened at
   pr |-> pr]                  \* the prover's folded messages and keys

\* what has to be hashed next, relative to everything hashed before: <<domain, history, content>>
ArgBody(m) ==
  IF m.ph = "kzg" THEN m.fck
  ELSE IF m.k = 0 THEN m.stmt \o m.msgs[1] ELSE m.msgs[m.k + 1]
ArgQuery(m) ==
  [tag |-> <<m.ph, m.tag>>, hist |-> <<m.previd, m.nonce, ArgBody(m)>>,
   chain |-> <<m.prevc, m.nonce, ArgBody(m)>>]

\* the prover's cross terms for the current round
Cross(pr, ckt, ssm) ==
  LET al == LeftHalf(pr.ma)   ar == RightHalf(pr.ma)
      bl == LeftHalf(pr.mb)   br == RightHalf(pr.mb)
      kal == LeftHalf(pr.cka) kar == RightHalf(pr.cka)
  IN << Dot(kal, ar),
        IF ssm THEN 0 ELSE Dot(RightHalf(pr.ckb), bl),
        Mul(ckt, Dot(ar, bl)),
        Dot(kar, al),
        IF ssm THEN 0 ELSE Dot(LeftHalf(pr.ckb), br),
        Mul(ckt, Dot(al, br)) >>
FoldPair(a, x, swap) == \* left + x * right, or x * left + right
  IF swap THEN VAdd(VScale(LeftHalf(a), x), RightHalf(a))
          ELSE VAdd(LeftHalf(a), VScale(RightHalf(a), x))
FoldProver(pr, ckt, ssm, x, xi) ==
  IF pr.ma = <<>> \/ Len(pr.ma) = 1 THEN pr ELSE
  TLCEval([ma  |-> FoldPair(pr.ma, x, FALSE),  mb  |-> FoldPair(pr.mb, xi, FALSE),
   cka |-> FoldPair(pr.cka, xi, FALSE), ckb |-> IF ssm THEN <<>> ELSE FoldPair(pr.ckb, x, FALSE),
   own |-> Append(pr.own, Cross(pr, ckt, ssm))])

FoldCom(com, g, x, xi) ==
  TLCEval([i \in 1 .. 3 |-> (Mul(g[i], x) + com[i] + Mul(g[i + 3], xi)) % P])

\* a: the answer, [c |-> 128-bit integer mod P, z |-> scalar or -1]
ArgFeed(m, id, a) ==
  IF m.ph = "rounds" THEN
    IF a.c = 0 THEN [m EXCEPT !.nonce = @ + 1]
    ELSE LET x == Inv(a.c)
         IN [m EXCEPT !.k = @ + 1, !.xs = Append(@, x), !.nonce = 0,
                      !.com = FoldCom(@, m.msgs[m.k + 1], x, a.c),
                      !.prevc = x, !.previd = id,
                      !.ph = ArgPhase(m.tipa, m.k + 1, Len(m.msgs)),
                      !.pr = FoldProver(@, m.ckt, m.ssm, x, a.c)]
  ELSE IF a.z < 0 THEN [m EXCEPT !.nonce = @ + 1]
  ELSE [m EXCEPT !.z = a.z, !.nonce = 0, !.previd = id, !.ph = "done"]

ArgDone(m) == m.ph = "done"

\* challenges, last round first, as the library's transcript
Transcript(m) == Reverse(m.xs)

\* the proof the prover has to produce (srs: powers in both groups, for tipa)
ArgProof(m, srs, shift) ==
  LET ts == Transcript(m)
      pi1 == OpenPoly(srs.hb, KeyPoly(InvAll(ts), Inv(shift)), m.z)
      pi2 == OpenPoly(srs.ga, KeyPoly(ts, 1), m.z)
  IN [steps |-> Reverse(m.pr.own),
      base  |-> <<m.pr.ma[1], m.pr.mb[1]>>,
      fck   |-> IF ~m.tipa THEN <<>> ELSE IF m.ssm THEN <<m.pr.cka[1]>>
                ELSE <<m.pr.cka[1], m.pr.ckb[1]>>,
      fpi   |-> IF ~m.tipa THEN <<>> ELSE IF m.ssm THEN <<pi1>> ELSE <<pi1, pi2>>]

\* key openings: e(g, fa - pa(z) h) = e(gb - z g, pi1), e(fb - pb(z) g, h) = e(pi2, ha - z h)
OpenedA(vk, ts, shift, z, fa, pi) ==
  Mul(vk.g, Sub(fa, Mul(vk.h, KeyPolyAt(InvAll(ts), Inv(shift), z))))
    = Mul(Sub(vk.gb, Mul(vk.g, z)), pi)
OpenedB(vk, ts, z, fb, pi) ==
  Mul(Sub(fb, Mul(vk.g, KeyPolyAt(ts, 1, z))), vk.h)
    = Mul(pi, Sub(vk.ha, Mul(vk.h, z)))

\* the equations an accepting verifier establishes: those determined by the rounds ...
BaseEquations(m, cka, ckb, proof) ==
  LET ts == Transcript(m)
      fa == IF m.tipa THEN proof.fck[1] ELSE FinalKey(cka, InvAll(ts))
      a  == proof.base[1]
      b  == IF m.ssm THEN FoldedPowers(InvAll(ts), m.stmt[2]) ELSE proof.base[2]
      fb == IF m.ssm THEN 0
            ELSE IF m.tipa THEN proof.fck[2] ELSE FinalKey(ckb, ts)
  IN <<m.com[1] = Mul(fa, a), m.com[3] = Mul(m.ckt, Mul(a, b))>>
     \o (IF m.ssm THEN <<>> ELSE <<m.com[2] = Mul(fb, b)>>)
\* ... and those that need the point the final keys are opened at
KeyEquations(m, vk, shift, proof) ==
  LET ts == Transcript(m)
  IN (IF m.tipa THEN <<OpenedA(vk, ts, shift, m.z, proof.fck[1], proof.fpi[1])>> ELSE <<>>)
     \o (IF m.tipa /\ ~m.ssm THEN <<OpenedB(vk, ts, m.z, proof.fck[2], proof.fpi[2])>> ELSE <<>>)
ArgEquations(m, cka, ckb, vk, shift, proof) ==
  BaseEquations(m, cka, ckb, proof) \o KeyEquations(m, vk, shift, proof)
\* what the transparent structured-message verifier may check besides: the redundant
\* right-hand components are consistent
ArgRedundant(m, proof) ==
  IF m.ssm /\ ~m.tipa
  THEN m.com[2] = m.stmt[2] /\ m.com[3] = Mul(m.ckt, Mul(proof.base[1], proof.base[2]))
  ELSE TRUE
=============================================================================
