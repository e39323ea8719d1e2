------------------------------ MODULE MCComplete ------------------------------
(***************************************************************************)
(* Completeness of the protocols.  An honest prover runs the machine of    *)
(* RippCalls, sending the cross terms of its own folded vectors; the       *)
(* oracle answers every new query with any value, including challenges     *)
(* that cannot be inverted (at most Retries times in a row) and answers    *)
(* that encode no scalar.  When the prover is done the verifier is run     *)
(* against the same oracle: it has to ask only what the prover asked, and  *)
(* to accept.                                                              *)
(***************************************************************************)
EXTENDS RippCalls

CONSTANTS Op,        \* protocol
          N,         \* length of the vectors, or number of aggregated proofs
          Full,      \* every statement (TRUE) or a sample of keys and vectors (FALSE)
          Retries    \* unusable answers in a row

VARIABLES ev, call, orc, done
vars == <<ev, call, orc, done>>

\* --- what is enumerated
Vec(n) == [1 .. n -> F]
Seqs(n) == {TLCEval([i \in 1 .. n |-> v[i]]) : v \in Vec(n)}
\* a sample: constants, one non-zero place, repeated, alternating, increasing
Sample(n) == {[i \in 1 .. n |-> c] : c \in {0, 1, P - 1}}
             \cup {[i \in 1 .. n |-> IF i = j THEN 1 ELSE 0] : j \in {1, n}}
             \cup {[i \in 1 .. n |-> i % P], [i \in 1 .. n |-> IF i % 2 = 0 THEN 1 ELSE P - 1]}
Msgs(n) == IF Full THEN Seqs(n) ELSE Sample(n)
Few(n) == {[i \in 1 .. n |-> (2 * i + 1) % P], [i \in 1 .. n |-> IF i = n THEN 1 ELSE 0], [i \in 1 .. n |-> (i * i) % P]}
Keys(n) == IF Full /\ n < 3 THEN Seqs(n) ELSE Few(n)
NZ == F \ {0}
SomeNZ == IF Full THEN NZ ELSE {1, P - 1, 2}

Blank(k, nf) == [steps |-> [i \in 1 .. k |-> <<0, 0, 0, 0, 0, 0>>], base |-> <<0, 0>>,
                 fck |-> [i \in 1 .. nf |-> 0], fpi |-> [i \in 1 .. nf |-> 0]]
NFck(op) == CASE op = "tipa" -> 2 [] op = "tssm" -> 1 [] OTHER -> 0
\* reference string of n second-tier elements: generators g, h, trapdoors alpha, beta
Srs(n, g, h, al, be) == [ga |-> VScale(Powers(al, 2 * n - 1), g), hb |-> VScale(Powers(be, 2 * n - 1), h),
                         gb |-> Mul(g, be), ha |-> Mul(h, al)]
Traps == IF Full THEN F \X F ELSE {<<0, 1>>, <<1, 1>>, <<2, P - 1>>, <<2, 0>>, <<P - 1, 2>>}
Srss(n) == {Srs(n, g, 1, t[1], t[2]) : g \in IF Full THEN {1, 2} ELSE {2}, t \in Traps}

MsgsN == Msgs(N)
KeysN == Keys(N)
FewN == Few(N)
SrssN == Srss(N)
Srss4 == {Srs(4, 1, 1, t[1], t[2]) : t \in Traps}
Ckts == IF Full THEN F ELSE {0, 1, 2}
PowersN == {Powers(b, N) : b \in F}
NoKey == {<<>>}

WithComs(e) == IF e.op \in {"tpc", "npc"} THEN [e EXCEPT !.coms = BiComs(e.yk, RowsOf(e, Len(XKey(e)), Len(e.yk)))] ELSE e
ArgStart(e) ==
  LET ssm == IsSsm(Op) IN
  \E a \in MsgsN, b \in IF ssm THEN PowersN ELSE MsgsN,
     s \in IF IsTipa(Op) THEN SrssN ELSE {NoSrs}, sh \in IF Op = "tipa" THEN SomeNZ ELSE {1},
     k \in IF IsTipa(Op) THEN NoKey ELSE KeysN, l \in IF Op = "gipa" THEN KeysN ELSE NoKey,
     t \in IF IsTipa(Op) THEN {1} ELSE Ckts :
    LET cka == IF IsTipa(Op) THEN VMul(Evens(s.hb), Powers(Inv(sh), N)) ELSE k
        ckb == IF Op = "tipa" THEN Evens(s.ga) ELSE l
    IN e = [e |-> "prove", op |-> Op, ma |-> a, mb |-> b, ckt |-> t, t |-> Dot(a, b), cka |-> cka, ckb |-> ckb,
            srs |-> s, shift |-> sh,
            com |-> <<Dot(cka, a), IF ssm THEN IF N > 1 THEN b[2] ELSE 0 ELSE Dot(ckb, b), Mul(t, Dot(a, b))>>,
            proof |-> Blank(Log2(N), NFck(Op))]
SippStart(e) ==
  \E a \in MsgsN, b \in MsgsN, r \in MsgsN :
    e = [e |-> "prove", op |-> "sipp", a |-> a, b |-> b, r |-> r, value |-> SippProduct(a, b, r),
         proof |-> [i \in 1 .. Log2(N) |-> <<0, 0>>]]
\* polynomials: N second-tier keys for rows of 1, 2 or 4 coefficients
PolyEv(u, f, pt, s, k, ny) ==
  WithComs([e |-> "prove", op |-> Op, uni |-> u, f |-> f, coms |-> <<>>, point |-> pt,
    xk |-> IF Op = "tpc" THEN SubSeq(s.hb, 1, 2 * N - 1) ELSE k, yk |-> SubSeq(s.ga, 1, ny), vk |-> VKof(s),
    proof |-> [yc |-> 0, ip |-> Blank(Log2(N), IF Op = "tpc" THEN 1 ELSE 0), ip1 |-> Blank(Log2(ny), 0), kp |-> 0]])
PolyStart(e) ==
  \E s \in Srss4, k \in IF Op = "tpc" THEN NoKey ELSE {[i \in 1 .. N |-> (i * i) % P]}, ny \in {1, 2, 4} :
    \/ \E f \in Sample(N * ny) \cup Sample(N * ny - 1), z \in F : e = PolyEv(TRUE, f, <<z>>, s, k, ny)
    \/ \E r \in {N, N - 1}, f0 \in Sample(ny), f1 \in Few(ny), x \in F, y \in {0, 1, 2} :
         e = PolyEv(FALSE, [i \in 1 .. r |-> IF i % 2 = 0 THEN f0 ELSE f1], <<x, y>>, s, k, ny)
\* aggregation of N valid proofs of one input
GKeys == {[alpha |-> 1, beta |-> 2, gamma |-> g[1], delta |-> g[2], abc |-> g[3]] : g \in {<<2, 1, <<1, 1>>>>, <<0, 2, <<0, 2>>>>, <<2, 2, <<1, 0>>>>}}
AggSrss == {Srs(N, 2, 1, t[1], t[2]) : t \in {<<0, 1>>, <<2, P - 1>>, <<P - 1, 2>>}}
FillEv(e) ==
  IF e.op # "agg" THEN e
  ELSE LET col(j) == [i \in 1 .. N |-> e.pfs[i][j]]
       IN [e EXCEPT !.proof.com = <<Dot(col(1), Evens(e.srs.hb)), Dot(col(2), Evens(e.srs.ga)), Dot(col(3), Evens(e.srs.hb)), 0>>]
AggStart(e) ==
  \E g \in GKeys, inp \in FewN, a \in FewN, b \in FewN, s \in AggSrss :
    e = FillEv([e |-> "prove", op |-> "agg", gvk |-> g, inputs |-> [i \in 1 .. N |-> <<inp[i]>>], srs |-> s,
         pfs |-> [i \in 1 .. N |-> <<a[i], b[i], Mul(Inv(g.delta),
                   (Mul(a[i], b[i]) - Mul(g.alpha, g.beta) - Mul(PublicTerm(g, <<inp[i]>>), g.gamma)) % P)>>],
         proof |-> [com |-> <<0, 0, 0, 0>>, aggc |-> 0, ab |-> Blank(Log2(N), 2), c |-> Blank(Log2(N), 1)]])
\* --- the prover fills in its next message
FillArg(m) ==
  IF ArgDone(m) THEN m
  ELSE IF m.ph = "rounds" THEN [m EXCEPT !.msgs[m.k + 1] = Cross(m.pr, m.ckt, m.ssm)]
  ELSE [m EXCEPT !.fck = IF m.ssm THEN <<m.pr.cka[1]>> ELSE <<m.pr.cka[1], m.pr.ckb[1]>>]
\* the parts of the first message that depend on r are known once it is
FillR(e, r) ==
  LET rv == Powers(r, N)  col(j) == [i \in 1 .. N |-> e.pfs[i][j]]
  IN [e EXCEPT !.proof.com[4] = Dot(VMul(col(1), rv), col(2)), !.proof.aggc = Dot(col(3), rv)]
Fill(c) ==
  IF c.sipp # <<>> THEN
    IF c.sipp[1].k < 0 \/ SippDone(c.sipp[1]) THEN c
    ELSE [c EXCEPT !.sipp[1].gts[c.sipp[1].k + 1] = SippCross(c.sipp[1])]
  ELSE IF c.pre THEN c
  ELSE LET ord == Pending(c, Default) IN IF ord = <<>> THEN c ELSE [c EXCEPT !.ams[ord[1]] = FillArg(@)]

Ord == Default
\* (a statement is chosen in the first step)
Init == ev = <<>> /\ call = <<>> /\ orc = <<>> /\ done = FALSE
Choose ==
  /\ ev = <<>>
  /\ CASE Op \in ArgOps -> ArgStart(ev') [] Op = "sipp" -> SippStart(ev') [] Op = "agg" -> AggStart(ev')
       [] OTHER -> PolyStart(ev')
  /\ call' = TLCEval(Fill(CallInit(ev')))
  /\ UNCHANGED <<orc, done>>

Known(t, q) == {i \in 1 .. Len(t) : t[i].q = q}
Key(q) == <<q.tag, q.hist>>
NonceOf(c) == IF c.pre THEN c.nonce ELSE IF c.sipp # <<>> THEN 0 ELSE c.ams[Pending(c, Ord)[1]].nonce
PhaseOf(c) == IF c.pre THEN "r" ELSE IF c.sipp # <<>> THEN "sipp" ELSE c.ams[Pending(c, Ord)[1]].ph
Answers(c) ==
  LET bad == NonceOf(c) < Retries
  IN CASE PhaseOf(c) = "r" -> {[c |-> 0, z |-> z, x |-> 0] : z \in (2 .. P - 1) \cup (IF bad THEN {-1} ELSE {})}
       [] PhaseOf(c) = "sipp" -> {[c |-> 0, z |-> 0, x |-> x] : x \in NZ}
       [] PhaseOf(c) = "rounds" -> {[c |-> x, z |-> 0, x |-> 0] : x \in NZ \cup (IF bad THEN {0} ELSE {})}
       [] OTHER -> {[c |-> 0, z |-> z, x |-> 0] : z \in F \cup (IF bad THEN {-1} ELSE {})}

Step ==
  /\ ev # <<>> /\ ~CallDone(call, Ord)
  /\ LET q == Key(CallQuery(call, ev, Ord))
         k == Known(orc, q)
     IN \E a \in IF k # {} THEN {orc[CHOOSE i \in k : TRUE].a} ELSE Answers(call) :
          LET id == IF k # {} THEN CHOOSE i \in k : TRUE ELSE Len(orc) + 1
              e2 == IF call.pre /\ a.z >= 0 THEN FillR(ev, a.z) ELSE ev
          IN /\ ev' = e2
             /\ call' = TLCEval(Fill(CallFeed(call, e2, Ord, id, a)))
             /\ orc' = IF k # {} THEN orc ELSE Append(orc, [q |-> q, a |-> a])
  /\ UNCHANGED done

\* --- the verifier's call for what was proved
VerifyEvent ==
  LET pf == ExpectedProof(call, ev) IN
  CASE Op \in ArgOps ->
         [e |-> "verify", op |-> Op, cka |-> ev.cka, ckb |-> ev.ckb, ckt |-> ev.ckt, com |-> ev.com,
          vk |-> IF IsTipa(Op) THEN VKof(ev.srs) ELSE NoVk, shift |-> ev.shift, proof |-> pf]
    [] Op = "sipp" -> [ev EXCEPT !.e = "verify", !.proof = pf]
    [] Op \in {"tpc", "npc"} ->
         [e |-> "verify", op |-> Op, uni |-> ev.uni, point |-> ev.point, vk |-> ev.vk, ny |-> Len(ev.yk), xk |-> ev.xk, yk |-> ev.yk,
          com |-> Dot(XKey(ev), ev.coms), eval |-> PolyEval(ev), proof |-> pf]
    [] Op = "agg" -> [e |-> "verify", op |-> "agg", vk |-> VKof(ev.srs), gvk |-> ev.gvk, inputs |-> ev.inputs, proof |-> pf]
RECURSIVE RunV(_, _)
RunV(c, v) ==
  IF CallDone(c, Ord) THEN [ok |-> TRUE, c |-> c]
  ELSE LET k == Known(orc, Key(CallQuery(c, v, Ord)))
       IN IF k = {} THEN [ok |-> FALSE, c |-> c]
          ELSE LET i == CHOOSE i \in k : TRUE IN RunV(TLCEval(CallFeed(c, v, Ord, i, orc[i].a)), v)
Finish == /\ ev # <<>> /\ ~done /\ CallDone(call, Ord) /\ done' = TRUE /\ UNCHANGED <<ev, call, orc>>
Next == Choose \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(Next)
Finishes == <>done

----------------------------------------------------------------------------
\* the honest proof is asked for nothing new and accepted
Complete ==
  done => LET v == VerifyEvent  w == RunV(CallInit(v), v) IN w.ok /\ Verdict(w.c, v, Ord) = "acc"
\* the prover's own proof is what the specification expects of a prover
SentIsExpected ==
  done => LET pf == ExpectedProof(call, ev)
          IN CASE Op \in ArgOps -> Reverse(call.ams[1].msgs) = pf.steps /\ call.ams[1].fck = pf.fck
               [] Op = "sipp" -> call.sipp[1].gts = pf
               [] OTHER -> Reverse(call.ams[1].msgs) = IF Op = "agg" THEN pf.ab.steps ELSE pf.ip.steps
\* after every round the folded commitments are the commitments of the folded vectors
FoldInvariant ==
  ev # <<>> =>   \A i \in 1 .. Len(call.ams) : LET m == call.ams[i] IN
    /\ m.com[1] = Dot(m.pr.cka, m.pr.ma)
    /\ m.com[3] = Mul(m.ckt, Dot(m.pr.ma, m.pr.mb))
    /\ ~m.ssm => m.com[2] = Dot(m.pr.ckb, m.pr.mb)
SippInvariant == ev # <<>> => \A i \in 1 .. Len(call.sipp) : call.sipp[i].value = Dot(call.sipp[i].a, call.sipp[i].b)
\* the folded keys are the closed forms the verifiers use
KeyForms ==
  ev # <<>> =>   \A i \in 1 .. Len(call.ams) : LET m == call.ams[i]  ts == Transcript(m) IN
    ArgDone(m) =>
      /\ Len(m.env.cka) = 2 ^ Len(ts) => m.pr.cka[1] = FinalKey(m.env.cka, InvAll(ts))
      /\ m.ssm /\ Len(ts) > 0 => m.pr.mb[1] = FoldedPowers(InvAll(ts), m.stmt[2])
      /\ m.tipa => m.pr.cka[1] = Dot(SubSeq(KeyPoly(InvAll(ts), Inv(m.env.shift)), 1, Len(m.env.srs.hb)), m.env.srs.hb)
      /\ m.tipa /\ ~m.ssm => m.pr.ckb[1] = Dot(KeyPoly(ts, 1), m.env.srs.ga)
=============================================================================
