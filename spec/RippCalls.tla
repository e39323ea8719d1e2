------------------------------- MODULE RippCalls -------------------------------
(***************************************************************************)
(* Library calls as machines that consume Fiat-Shamir answers.  A call is  *)
(* described by the record `ev` of its arguments (and, for a prover that   *)
(* returned, of the proof it returned); it consists of an optional         *)
(* combination challenge r (aggregation), an optional SIPP machine and a   *)
(* sequence of argument machines, which may run in any order.              *)
(***************************************************************************)
EXTENDS RippPoly, RippSipp, RippAgg

Slot(role, tag, ssm, tipa, stmt, proof, ckt, pr, env) ==
  ArgInit(role, tag, ssm, tipa, stmt, Reverse(proof.steps), proof.fck, ckt, pr)
    @@ [env |-> env, proof |-> proof]

VKof(srs) == [g |-> srs.ga[1], h |-> srs.hb[1], gb |-> srs.gb, ha |-> srs.ha]
NoSrs == [ga |-> <<>>, hb |-> <<>>, gb |-> 0, ha |-> 0]
NoVk  == [g |-> 0, h |-> 0, gb |-> 0, ha |-> 0]
PEnv(srs, shift) == [cka |-> <<>>, ckb |-> <<>>, vk |-> NoVk, shift |-> shift, srs |-> srs]
VEnv(cka, ckb, vk, shift) == [cka |-> cka, ckb |-> ckb, vk |-> vk, shift |-> shift, srs |-> NoSrs]
Prover(ma, mb, cka, ckb) ==
  [ma |-> ma, mb |-> mb, cka |-> cka, ckb |-> ckb, own |-> <<>>]

IsSsm(op)  == op \in {"ssm", "tssm"}
IsTipa(op) == op \in {"tipa", "tssm"}
ArgOps == {"gipa", "tipa", "ssm", "tssm"}

RoundsOk(n, proof) == IsPow2(n) /\ Len(proof.steps) = Log2(n)

\* --- is the proof (or statement) representable at all? (-1: not a group element)
ArgMalformed(p) == \/ \E i \in 1 .. Len(p.steps) : \E j \in 1 .. 6 : p.steps[i][j] < 0
                   \/ \E i \in 1 .. Len(p.base) : p.base[i] < 0
                   \/ \E i \in 1 .. Len(p.fck) : p.fck[i] < 0
                   \/ \E i \in 1 .. Len(p.fpi) : p.fpi[i] < 0

(***************************************************************************)
(* Statements the prover is entitled to have accepted.                     *)
(***************************************************************************)
ArgTrue(ev) ==
  LET n == Len(ev.ma) IN
  /\ IsPow2(n) /\ Len(ev.mb) = n /\ Len(ev.cka) = n
  /\ (IsSsm(ev.op) => ev.mb = Powers(IF n > 1 THEN ev.mb[2] ELSE 0, n))
  /\ (~IsSsm(ev.op) => Len(ev.ckb) = n)
  /\ ev.t = Dot(ev.ma, ev.mb)
  /\ ev.com[1] = ComA(ev.cka, ev.ma)
  /\ (~IsSsm(ev.op) => ev.com[2] = Dot(ev.ckb, ev.mb))
  /\ ev.com[3] = Mul(ev.ckt, ev.t)
  /\ (IsTipa(ev.op) =>
        /\ Len(ev.srs.hb) = 2 * n - 1
        /\ ev.shift # 0
        /\ ev.cka = VMul(Evens(ev.srs.hb), Powers(Inv(ev.shift), n))
        /\ (~IsSsm(ev.op) => Len(ev.srs.ga) = 2 * n - 1 /\ ev.ckb = Evens(ev.srs.ga)))

(***************************************************************************)
(* Initial machine of a call.  `bad` marks arguments for which a verifier  *)
(* must not accept and need not ask anything (wrong number of rounds etc.).*)
(***************************************************************************)
Call(pre, ams, sipp, bad) ==
  [pre |-> pre, r |-> 0, rid |-> 0, nonce |-> 0, ams |-> ams, sipp |-> sipp, bad |-> bad, run |-> TRUE]
NoSipp == <<>>

ArgProveCall(ev) ==
  LET b == IF ~IsSsm(ev.op) THEN ev.com[2] ELSE IF Len(ev.mb) > 1 THEN ev.mb[2] ELSE 0
  IN Call(FALSE, <<Slot("P", "arg", IsSsm(ev.op), IsTipa(ev.op), <<ev.com[1], b, ev.com[3]>>,
                        ev.proof, ev.ckt, Prover(ev.ma, ev.mb, ev.cka, ev.ckb),
                        PEnv(ev.srs, ev.shift))>>, NoSipp, FALSE)
ArgVerifyCall(ev) ==
  Call(FALSE, <<Slot("V", "arg", IsSsm(ev.op), IsTipa(ev.op), ev.com, ev.proof, ev.ckt, NoProver,
                     VEnv(ev.cka, ev.ckb, ev.vk, ev.shift))>>, NoSipp,
       \/ ArgMalformed(ev.proof)
       \/ ~IsTipa(ev.op) /\ ~RoundsOk(Len(ev.cka), ev.proof)
       \/ ev.op = "gipa" /\ Len(ev.ckb) # Len(ev.cka))

SippCall(ev, gts) ==
  Call(FALSE, <<>>, <<SippInit(ev.a, ev.b, ev.r, ev.value, gts)>>,
       Len(gts) # Log2(Len(ev.a)))

\* point of a univariate opening, as a pair
PointOf(ev, ny) == IF ev.uni THEN <<UniX(ny, ev.point[1]), ev.point[1]>> ELSE ev.point
RowsOf(ev, nx, ny) == IF ev.uni THEN UniRows(nx, ny, ev.f) ELSE BiRows(nx, ny, ev.f)
PolyFits(ev, nx, ny) == IF ev.uni THEN UniFits(nx, ny, ev.f) ELSE BiFits(nx, ny, ev.f)
PolyEval(ev) == IF ev.uni THEN PEval(ev.f, ev.point[1]) ELSE BiEval(ev.f, ev.point[1], ev.point[2])
\* trusted: xk = powers of beta in G2 (all), yk = powers of alpha in G1; transparent: free keys
XKey(ev) == IF ev.op = "tpc" THEN Evens(ev.xk) ELSE ev.xk
PolyOpenCall(ev) ==
  LET ck == XKey(ev)  nx == Len(ck)  ny == Len(ev.yk)
      pt == PointOf(ev, ny)
      px == Powers(pt[1], nx)
      row == TLCEval(BiEvalRow(RowsOf(ev, nx, ny), pt[1]))
      st2 == <<Dot(ck, ev.coms), pt[1], Dot(ev.coms, px)>>
      srs == [ga |-> <<>>, hb |-> ev.xk, gb |-> 0, ha |-> 0]
      top == Slot("P", "top", TRUE, ev.op = "tpc", st2, ev.proof.ip, 1,
                  Prover(ev.coms, px, ck, <<>>), PEnv(srs, 1))
      low == Slot("P", "low", TRUE, FALSE, <<Dot(ev.yk, row), pt[2], PEval(row, pt[2])>>,
                  ev.proof.ip1, 1, Prover(row, Powers(pt[2], ny), ev.yk, <<>>), PEnv(NoSrs, 1))
  IN Call(FALSE, IF ev.op = "tpc" THEN <<top>> ELSE <<top, low>>, NoSipp, FALSE)
PolyVerifyCall(ev) ==
  LET ny == ev.ny
      pt == PointOf(ev, ny)
      top == Slot("V", "top", TRUE, ev.op = "tpc", <<ev.com, pt[1], ev.proof.yc>>, ev.proof.ip, 1,
                  NoProver, VEnv(IF ev.op = "tpc" THEN <<>> ELSE ev.xk, <<>>, ev.vk, 1))
      low == Slot("V", "low", TRUE, FALSE, <<ev.proof.yc, pt[2], ev.eval>>, ev.proof.ip1, 1,
                  NoProver, VEnv(ev.yk, <<>>, NoVk, 1))
      mal == \/ ArgMalformed(ev.proof.ip) \/ ev.proof.yc < 0
             \/ ev.op = "npc" /\ \/ ArgMalformed(ev.proof.ip1)
                                 \/ ~RoundsOk(Len(ev.xk), ev.proof.ip)
                                 \/ ~RoundsOk(Len(ev.yk), ev.proof.ip1)
  IN Call(FALSE, IF ev.op = "tpc" THEN <<top>> ELSE <<top, low>>, NoSipp, mal)

AggProveCall(ev)  == Call(TRUE, <<>>, NoSipp, FALSE)
AggVerifyCall(ev) == Call(TRUE, <<>>, NoSipp,
  \/ ~Batchable(ev.gvk, ev.inputs)
  \/ ArgMalformed(ev.proof.ab) \/ ArgMalformed(ev.proof.c)
  \/ \E i \in 1 .. 4 : ev.proof.com[i] < 0)
\* once r is known
AggSlots(ev, r) ==
  LET pf == ev.proof
      stAB == <<pf.com[1], pf.com[2], pf.com[4]>>
      stC  == <<pf.com[3], r, pf.aggc>>
  IN IF ev.e = "prove" THEN
       LET n  == Len(ev.pfs)
           rv == TLCEval(Powers(r, n))
           ri == TLCEval(Powers(Inv(r), n))
           A == [i \in 1 .. n |-> ev.pfs[i][1]]
           B == [i \in 1 .. n |-> ev.pfs[i][2]]
           C == [i \in 1 .. n |-> ev.pfs[i][3]]
           k1 == Evens(ev.srs.hb)
           k2 == Evens(ev.srs.ga)
       IN << Slot("P", "ab", FALSE, TRUE, stAB, pf.ab, 1,
                  Prover(VMul(A, rv), B, VMul(k1, ri), k2), PEnv(ev.srs, r)),
             Slot("P", "c", TRUE, TRUE, stC, pf.c, 1, Prover(C, rv, k1, <<>>), PEnv(ev.srs, 1)) >>
     ELSE << Slot("V", "ab", FALSE, TRUE, stAB, pf.ab, 1, NoProver, VEnv(<<>>, <<>>, ev.vk, r)),
             Slot("V", "c", TRUE, TRUE, stC, pf.c, 1, NoProver, VEnv(<<>>, <<>>, ev.vk, 1)) >>

CallInit(ev) ==
  CASE ev.op \in ArgOps /\ ev.e = "prove"  -> ArgProveCall(ev)
    [] ev.op \in ArgOps /\ ev.e = "verify" -> ArgVerifyCall(ev)
    [] ev.op = "sipp"                      -> SippCall(ev, ev.proof)
    [] ev.op \in {"tpc", "npc"} /\ ev.e = "prove"  -> PolyOpenCall(ev)
    [] ev.op \in {"tpc", "npc"} /\ ev.e = "verify" -> PolyVerifyCall(ev)
    [] ev.op = "agg" /\ ev.e = "prove"  -> AggProveCall(ev)
    [] ev.op = "agg" /\ ev.e = "verify" -> AggVerifyCall(ev)

(***************************************************************************)
(* Steps.  `plan` resolves what is not prescribed: the order in which the  *)
(* argument machines are run, and of which machines a rejecting verifier   *)
(* leaves the final keys unchecked once the rest is known to be wrong.     *)
(***************************************************************************)
Plan(o, s) == [ord |-> o, skip |-> s]
Default == Plan(<<1, 2>>, {})
\* equations known to hold or not; unfinished machines contribute what is determined so far
SlotEqs(m) == CASE m.ph = "done" -> ArgEquations(m, m.env.cka, m.env.ckb, m.env.vk, m.env.shift, m.proof)
                [] m.ph = "kzg"  -> BaseEquations(m, m.env.cka, m.env.ckb, m.proof)
                [] OTHER -> <<>>
Refuted(m) == m.ph = "kzg" /\ LET eqs == SlotEqs(m) IN \E i \in 1 .. Len(eqs) : ~eqs[i]
SlotDone(call, plan, i) == ArgDone(call.ams[i]) \/ (i \in plan.skip /\ Refuted(call.ams[i]))
Pending(call, plan) == SelectSeq(plan.ord, LAMBDA i : i <= Len(call.ams) /\ ~SlotDone(call, plan, i))
CallDone(call, plan) ==
  /\ ~call.pre
  /\ \A i \in 1 .. Len(call.ams) : SlotDone(call, plan, i)
  /\ \A i \in 1 .. Len(call.sipp) : SippDone(call.sipp[i])
RQuery(call, ev) ==
  LET c == SubSeq(ev.proof.com, 1, 3)
  IN [tag |-> <<"r">>, hist |-> <<call.nonce, c>>, chain |-> <<call.nonce, c>>]
CallQuery(call, ev, plan) ==
  IF call.pre THEN RQuery(call, ev)
  ELSE IF call.sipp # <<>> THEN SippQuery(call.sipp[1])
  ELSE ArgQuery(call.ams[Pending(call, plan)[1]])
CallFeed(call, ev, plan, id, a) ==
  IF call.pre THEN
    IF a.z < 0 THEN [call EXCEPT !.nonce = @ + 1]
    ELSE [call EXCEPT !.pre = FALSE, !.r = a.z, !.ams = AggSlots(ev, a.z)]
  ELSE IF call.sipp # <<>> THEN [call EXCEPT !.sipp = <<SippFeed(@[1], id, a)>>]
  ELSE LET i == Pending(call, plan)[1] IN [call EXCEPT !.ams[i] = ArgFeed(@, id, a)]

(***************************************************************************)
(* What a finished call has to return.                                     *)
(***************************************************************************)
RECURSIVE Concat(_, _)
Concat(Op(_), s) == IF s = <<>> THEN <<>> ELSE Op(Head(s)) \o Concat(Op, Tail(s))
Equations(call, ev) ==
  Concat(SlotEqs, call.ams)
  \o (IF ev.op = "sipp" /\ SippDone(call.sipp[1]) THEN <<SippHolds(call.sipp[1])>> ELSE <<>>)
  \o (IF ev.op = "tpc"
      THEN <<KzgHolds(ev.vk, ev.proof.yc, PointOf(ev, ev.ny)[2], ev.eval, ev.proof.kp)>> ELSE <<>>)
  \o (IF ev.op = "agg" /\ ~call.pre
      THEN <<Combined(ev.gvk, ev.inputs, call.r, ev.proof.com[4], ev.proof.aggc)>> ELSE <<>>)
\* redundant components are consistent as far as they are determined
AllRedundant(call) ==
  \A i \in 1 .. Len(call.ams) : ArgDone(call.ams[i]) => ArgRedundant(call.ams[i], call.ams[i].proof)
\* "acc", "non" (anything but acceptance), "any", or "open" (not determined by what was asked)
Verdict(call, ev, plan) ==
  IF call.bad THEN "non"
  ELSE IF ev.op = "agg" /\ ~call.pre /\ call.r \in {0, 1} THEN "any"
  ELSE LET eqs == TLCEval(Equations(call, ev))
       IN IF \E i \in 1 .. Len(eqs) : ~eqs[i] THEN "non"
          ELSE IF ~CallDone(call, plan) THEN IF AllRedundant(call) THEN "open" ELSE "non"
          ELSE IF AllRedundant(call) THEN "acc" ELSE "any"

\* the proof a finished prover call has to have returned
ExpectedProof(call, ev) ==
  LET AP(i) == ArgProof(call.ams[i], call.ams[i].env.srs, call.ams[i].env.shift) IN
  CASE ev.op \in ArgOps -> AP(1)
    [] ev.op = "sipp" -> call.sipp[1].own
    [] ev.op \in {"tpc", "npc"} ->
       LET ck == XKey(ev)  ny == Len(ev.yk)  pt == PointOf(ev, ny)
           row == TLCEval(BiEvalRow(RowsOf(ev, Len(ck), ny), pt[1]))
       IN IF ev.op = "tpc"
          THEN [ip |-> AP(1), yc |-> Dot(row, ev.yk), kp |-> KzgOpen(ev.yk, row, pt[2])]
          ELSE [ip |-> AP(1), yc |-> Dot(row, ev.yk), ip1 |-> AP(2)]
    [] ev.op = "agg" ->
       LET n == Len(ev.pfs)
           A == [i \in 1 .. n |-> ev.pfs[i][1]]
           B == [i \in 1 .. n |-> ev.pfs[i][2]]
           C == [i \in 1 .. n |-> ev.pfs[i][3]]
           rv == TLCEval(Powers(call.r, n))
       IN [com |-> <<Dot(A, Evens(ev.srs.hb)), Dot(B, Evens(ev.srs.ga)),
                     Dot(C, Evens(ev.srs.hb)), Dot(VMul(A, rv), B)>>,
           aggc |-> Dot(C, rv), ab |-> AP(1), c |-> AP(2)]
=============================================================================
