------------------------------- MODULE RippSipp -------------------------------
(***************************************************************************)
(* SIPP: outsourcing of sum_i r_i a_i b_i.  The generator is seeded with   *)
(* the whole statement, absorbs each round's two elements and then yields  *)
(* that round's challenge x: prover and verifier fold                      *)
(*   a := left + x * right,   b := left + 1/x * right                      *)
(***************************************************************************)
EXTENDS RippField

SippInit(a, b, r, value, gts) ==
  [stmt |-> a \o b \o r \o <<value>>, gts |-> gts, k |-> 0 - 1,
   a |-> TLCEval(VMul(a, SubSeq(r, 1, Len(a)))), b |-> b, value |-> value,
   own |-> <<>>, previd |-> 0]
SippDone(m) == m.k = Len(m.gts)
SippQuery(m) ==
  LET h == IF m.k < 0 THEN <<0, m.stmt>> ELSE <<m.previd, m.gts[m.k + 1]>>
  IN [tag |-> <<"sipp", IF m.k < 0 THEN "seed" ELSE "absorb">>, hist |-> h, chain |-> h]
SippCross(m) == <<Dot(RightHalf(m.a), LeftHalf(m.b)), Dot(LeftHalf(m.a), RightHalf(m.b))>>
SippFeed(m, id, ans) ==
  IF m.k < 0 THEN [m EXCEPT !.k = 0, !.previd = id]
  ELSE LET x == ans.x  xi == Inv(x)  g == m.gts[m.k + 1]
       IN IF Len(m.a) < 2 THEN [m EXCEPT !.k = @ + 1, !.previd = id] ELSE
          TLCEval([m EXCEPT !.k = @ + 1, !.previd = id,
             !.own = Append(@, SippCross(m)),
             !.value = (@ + g[1] * x + Mul(g[2], xi)) % P,
             !.a = VAdd(LeftHalf(@), VScale(RightHalf(@), x)),
             !.b = VAdd(LeftHalf(@), VScale(RightHalf(@), xi))])
SippHolds(m) == m.value = Mul(m.a[1], m.b[1])
SippProduct(a, b, r) == Dot(VMul(a, SubSeq(r, 1, Len(a))), b)
=============================================================================
