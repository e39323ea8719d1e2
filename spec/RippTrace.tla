------------------------------ MODULE RippTrace ------------------------------
(***************************************************************************)
(* Validates a trace recorded from the library against the specification.  *)
(* The trace is a sequence of events, one per library call; a call that    *)
(* asks the Fiat-Shamir oracle is replayed one query at a time on the      *)
(* machine of RippCalls.  The specification never gets stuck: whatever the *)
(* library did that the specification does not allow is reported as        *)
(*     MISMATCH|position|scenario|category|what                            *)
(* and the run ends with TRACEDONE.                                        *)
(***************************************************************************)
EXTENDS RippPure, RippRng, Json, IOUtils

PFromEnv == atoi(IOEnv.P)
Trace == ndJsonDeserialize(IOEnv.TRACE)
Verbose == IOEnv.VERBOSE = "1"
N == Len(Trace)

VARIABLES l,      \* next event
          st,     \* the call being replayed, or Idle
          tbl,    \* what is known about the oracle's queries in this session
          last,   \* the last proof produced (with the arguments it was produced for)
          res,    \* result of the last verification
          rng     \* generators
vars == <<l, st, tbl, last, res, rng>>
View == <<l, st.on, st.qi, st.steps>>

Ev == Trace[l]
Idle == [on |-> FALSE, qi |-> 0, steps |-> 0]
NoTbl == [ids |-> <<>>, hist |-> <<>>, ord |-> <<>>]   \* id -> set of <<tag, chain>>,  <<tag, hist>> -> id
NoLast == [e |-> "none", ok |-> FALSE]
NoRng == [gens |-> <<>>, idOf |-> <<>>, outs |-> <<>>]

Say(ev, cat, what) == PrintT("MISMATCH|" \o ToString(l) \o "|" \o ToString(ev.n) \o "|" \o cat \o "|" \o what)
Report(ev, probs) == \A i \in 1 .. Len(probs) : Say(ev, probs[i][1], probs[i][2])

----------------------------------------------------------------------------
(* One oracle query.  s: [call, qi, used, tbl, probs, stuck]                *)
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)
SameId(t, id) == IF id \in DOMAIN t.ids THEN t.ids[id] ELSE {}
AskStep(ev, plan, s) ==
  LET q    == TLCEval(CallQuery(s.call, ev, plan))
      key  == <<q.tag, q.hist>>
      entry == <<q.tag, q.chain>>
      next == IF s.qi <= Len(ev.qs) THEN ev.qs[s.qi].id ELSE 0
      known == IF key \in DOMAIN s.tbl.hist THEN s.tbl.hist[key] ELSE 0
      alike == {id \in DOMAIN s.tbl.ids : entry \in s.tbl.ids[id]}
      alikeOther == {id \in s.used : \E e \in SameId(s.tbl, id) : e[2] = q.chain}
      take(id, adv, probs) ==
        LET a == ev.qs[CHOOSE i \in 1 .. Len(ev.qs) : ev.qs[i].id = id]
        IN [s EXCEPT !.call = CallFeed(@, ev, plan, id, a),
                     !.qi = IF adv THEN @ + 1 ELSE @, !.used = @ \cup {id}, !.steps = @ + 1,
                     !.tbl = [@ EXCEPT !.ids = Put(@, id, SameId(s.tbl, id) \cup {entry}),
                                       !.hist = IF key \in DOMAIN @ THEN @ ELSE Put(@, key, id)],
                     !.probs = @ \o probs]
      stop(probs) == [s EXCEPT !.stuck = TRUE, !.steps = @ + 1, !.probs = @ \o probs]
      clash == next # 0 /\ \E e \in SameId(s.tbl, next) : e[1] = q.tag /\ e[2] # q.chain
      what == "query " \o ToString(s.qi) \o " " \o ToString(q.tag)
  IN IF known # 0 THEN
       IF next = known THEN take(known, TRUE, <<>>)
       ELSE IF known \in s.used THEN take(known, FALSE, <<>>)
       ELSE IF next = 0 THEN stop(<<>>)
       ELSE take(next, TRUE, << <<"bind", what \o ": same statement and messages, another query">> >>)
     ELSE IF next # 0 /\ next \in alike THEN take(next, TRUE, <<>>)
     ELSE IF alike \cap s.used # {} THEN take(CHOOSE id \in alike \cap s.used : TRUE, FALSE, <<>>)
     ELSE IF next # 0 THEN
       take(next, TRUE, IF clash THEN << <<"bind", what \o ": different contents, same query">> >> ELSE <<>>)
     ELSE IF alikeOther # {} THEN take(CHOOSE id \in alikeOther : TRUE, FALSE, <<>>)
     ELSE stop(<<>>)

StartCall(ev, t) ==
  [on |-> TRUE, call |-> CallInit(ev), qi |-> 1, used |-> {}, tbl |-> t, probs |-> <<>>, stuck |-> FALSE, steps |-> 0]
Running(plan, s) == ~s.stuck /\ ~CallDone(s.call, plan)
RECURSIVE RunAll(_, _, _)
RunAll(ev, plan, s) == IF Running(plan, s) THEN RunAll(ev, plan, TLCEval(AskStep(ev, plan, s))) ELSE s
Agrees(plan, s, ev) ==
  /\ s.probs = <<>>
  /\ s.qi = Len(ev.qs) + 1
  /\ ev.e = "prove" => ~s.stuck /\ ExpectedProof(s.call, ev) = ev.proof
  /\ ev.e = "verify" => LET v == Verdict(s.call, ev, plan) IN
       (ev.res = "acc" => v \in {"acc", "any"}) /\ (ev.res # "acc" => v \in {"non", "any"})
\* In which order two independent arguments are run is not prescribed, nor whether a
\* verifier goes on once it knows that it will reject.  Of the plans that explain a call,
\* those that explain it to its end and in the order seen before are preferred.
Kind(ev) == <<ev.op, ev.e>>
Plans(ev, t) ==
  LET skips == IF ev.op = "agg" /\ ev.e = "verify" /\ ev.res \in {"rej", "err"}
               THEN <<{}, {1}, {2}, {1, 2}>> ELSE <<{}>>
      seen  == IF Kind(ev) \in DOMAIN t.ord THEN t.ord[Kind(ev)] ELSE Default.ord
  IN [i \in 1 .. 2 * Len(skips) |->
        Plan(IF i % 2 = 1 THEN seen ELSE Reverse(seen), skips[(i + 1) \div 2])]
Explains(ev, t, plan) == \* "end": to its end; "so far": until the verifier stopped asking
  LET s == RunAll(ev, plan, StartCall(ev, t))
  IN IF ~Agrees(plan, s, ev) THEN "no" ELSE IF s.stuck THEN "so far" ELSE "end"
RECURSIVE Explaining(_, _, _, _)
Explaining(ev, t, plans, late) ==
  IF plans = <<>> THEN IF late = <<>> THEN Default ELSE late[1]
  ELSE LET how == TLCEval(Explains(ev, t, Head(plans)))
       IN IF how = "end" THEN Head(plans)
          ELSE Explaining(ev, t, Tail(plans), IF how = "so far" /\ late = <<>> THEN <<Head(plans)>> ELSE late)
Unordered == {"npc", "agg"}
PlanOf(ev, t) == IF ev.op \in Unordered THEN Explaining(ev, t, Plans(ev, t), <<>>) ELSE Default
\* What is learned from a call: nothing from a verification that was cut short, or when the
\* other order explains the call as well and none has been seen before.
Learned(t, s, ev) ==
  LET known == Kind(ev) \in DOMAIN t.ord
      other == [s.plan EXCEPT !.ord = Reverse(@)]
  IN IF ev.op \notin Unordered THEN IF ev.e = "verify" /\ s.stuck THEN t ELSE s.tbl
     ELSE IF ev.e = "verify" /\ (s.stuck \/ s.plan.skip # {}) THEN t
     ELSE IF known \/ ~Agrees(s.plan, s, ev) THEN s.tbl
     ELSE IF Explains(ev, t, other) # "no" THEN t
     ELSE IF ev.res \in {"ok", "acc"} THEN [s.tbl EXCEPT !.ord = Put(@, Kind(ev), s.plan.ord)]
     ELSE s.tbl

----------------------------------------------------------------------------
(* Values that are no group elements: -1 (nothing), -10 and below (surplus). *)
ProofInts(p) == UNION ({{p.steps[i][j] : j \in 1 .. 6} : i \in 1 .. Len(p.steps)}
                       \cup {{p.base[i] : i \in 1 .. Len(p.base)}})
AllInts(ev) ==
  CASE ev.op \in ArgOps -> ProofInts(ev.proof) \cup {ev.com[i] : i \in 1 .. 3}
    [] ev.op = "tpc" -> ProofInts(ev.proof.ip)
    [] ev.op = "npc" -> ProofInts(ev.proof.ip) \cup ProofInts(ev.proof.ip1)
    [] ev.op = "agg" -> ProofInts(ev.proof.ab) \cup ProofInts(ev.proof.c)
    [] OTHER -> {}
Missing(ev) == -1 \in AllInts(ev)
Surplus(ev) == \E x \in AllInts(ev) : x <= -10
\* a claim that is no single element is no inner product; of round messages the surplus may be ignored
Ignorable(ev) == Surplus(ev) /\ ~Missing(ev) /\ ~(ev.op \in ArgOps /\ \E i \in 1 .. 3 : ev.com[i] < 0)

\* statements a prover call must serve
ProveTrue(ev) ==
  CASE ev.op \in ArgOps -> ArgTrue(ev)
    [] ev.op = "sipp" -> /\ Len(ev.b) = Len(ev.a) /\ Len(ev.r) >= Len(ev.a)
                         /\ IsPow2(Len(ev.a)) /\ Len(ev.a) >= 2
                         /\ ev.value = SippProduct(ev.a, ev.b, ev.r)
    [] ev.op \in {"tpc", "npc"} ->
         LET nx == Len(XKey(ev))  ny == Len(ev.yk)
         IN PolyFits(ev, nx, ny) /\ ev.coms = BiComs(ev.yk, RowsOf(ev, nx, ny))
    [] ev.op = "agg" -> IsPow2(Len(ev.pfs)) /\ Len(ev.srs.hb) = 2 * Len(ev.pfs) - 1
                                            /\ Len(ev.srs.ga) = 2 * Len(ev.pfs) - 1
\* a verification of exactly what the last prover call proved (p: that call)
Honest(ev, p) ==
  /\ p.ok /\ p.ev.op = ev.op /\ p.ev.proof = ev.proof
  /\ CASE ev.op \in ArgOps ->
            /\ ev.com = p.ev.com /\ ev.ckt = p.ev.ckt
            /\ IF IsTipa(ev.op) THEN ev.vk = VKof(p.ev.srs) /\ ev.shift = p.ev.shift
               ELSE ev.cka = p.ev.cka /\ (ev.op = "gipa" => ev.ckb = p.ev.ckb)
       [] ev.op = "sipp" -> ev.a = p.ev.a /\ ev.b = p.ev.b /\ ev.r = p.ev.r /\ ev.value = p.ev.value
       [] ev.op \in {"tpc", "npc"} ->
            /\ ev.point = p.ev.point /\ ev.uni = p.ev.uni
            /\ ev.vk = p.ev.vk /\ ev.ny = Len(p.ev.yk)
            /\ ev.op = "npc" => ev.xk = p.ev.xk /\ ev.yk = p.ev.yk
            /\ ev.com = Dot(XKey(p.ev), p.ev.coms) /\ ev.eval = PolyEval(p.ev)
       [] ev.op = "agg" ->
            /\ ev.vk = VKof(p.ev.srs) /\ Len(ev.inputs) = Len(p.ev.pfs)
            /\ \A i \in 1 .. Len(ev.inputs) :
                 InputsOk(ev.gvk, ev.inputs[i]) /\ ProofValid(ev.gvk, ev.inputs[i], p.ev.pfs[i])

----------------------------------------------------------------------------
(* Judging a finished call.                                                 *)
VerifyProbs(ev, verdict, honest, s) ==
  Problem(honest => ev.res = "acc", "incomplete", "honest proof not accepted: " \o ev.res)
  \o Problem(ev.res # "panic", "crash", "verifier crashed")
  \o Problem(~(verdict \in {"acc", "open"} /\ ev.res \in {"rej", "err"}), "strict",
             "valid proof rejected (" \o verdict \o ")")
  \o Problem(~(verdict \in {"non", "open"} /\ ev.res = "acc"), "lax",
             "invalid proof accepted (" \o verdict \o ")")
  \o (IF ev.op = "agg" THEN Problem(~(ev.adaptive /\ ev.res = "acc"), "adaptive",
             "public inputs chosen after the combination scalar accepted") ELSE <<>>)
ProveProbs(ev, s) ==
  Problem(~s.stuck /\ s.qi = Len(ev.qs) + 1, "bind", "prover asked other queries than the protocol")
  \o (IF s.stuck \/ s.qi # Len(ev.qs) + 1 THEN <<>>
      ELSE Problem(ExpectedProof(s.call, ev) = ev.proof, "content", "another proof than the protocol's"))

----------------------------------------------------------------------------
TInit == l = 1 /\ st = Idle /\ tbl = NoTbl /\ last = NoLast /\ res = "none" /\ rng = NoRng

Begin ==
  /\ Ev.e = "begin"
  /\ Verbose => PrintT("SCENARIO|" \o ToString(l) \o "|" \o ToString(Ev.n))
  /\ l' = l + 1 /\ st' = Idle /\ tbl' = [NoTbl EXCEPT !.ord = tbl.ord] /\ last' = NoLast /\ res' = "none" /\ rng' = NoRng

Pure ==
  /\ Ev.e \in PureEvents
  /\ Report(Ev, Judge(Ev))
  /\ l' = l + 1 /\ UNCHANGED <<st, tbl, last, res, rng>>

TransportE ==
  /\ Ev.e = "transport"
  /\ Report(Ev, TransportJudge(Ev, res))
  /\ l' = l + 1 /\ UNCHANGED <<st, tbl, last, res, rng>>

Layout ==
  /\ Ev.e = "layout"
  /\ Say(Ev, "layout", "a proof cannot be written or read in its own layout")
  /\ l' = l + 1 /\ UNCHANGED <<st, tbl, last, res, rng>>

\* a prover call that returned no proof, or was not entitled to one
ProveRefused ==
  /\ st.on = FALSE /\ Ev.e = "prove"
  /\ LET ok == TLCEval(ProveTrue(Ev)) IN
     /\ ~ok \/ Ev.res # "ok"
     /\ Report(Ev,
          IF ok THEN << <<"refused", "no proof for a true statement: " \o Ev.res>>,
                        <<"incomplete", "no proof for a true statement: " \o Ev.res>> >>
          ELSE IF Ev.op = "gipa" THEN
               Problem(Ev.res # "ok", "lied", "proof for a false statement")
               \o Problem(Ev.res # "panic", "crashp", "prover crashed on a false statement")
          ELSE <<>>)
  /\ last' = [e |-> "prove", ok |-> FALSE, ev |-> Ev]
  /\ l' = l + 1 /\ UNCHANGED <<st, tbl, res, rng>>

\* a verification whose arguments are no group elements, or of impossible shape
VerifyMalformed ==
  /\ st.on = FALSE /\ Ev.e = "verify"
  /\ Missing(Ev) \/ Surplus(Ev) \/ CallInit(Ev).bad
  /\ Report(Ev, VerifyProbs(Ev, IF Ignorable(Ev) THEN "any" ELSE "non", Honest(Ev, last), st))
  /\ res' = Ev.res
  /\ l' = l + 1 /\ UNCHANGED <<st, tbl, last, rng>>

Start ==
  /\ st.on = FALSE
  /\ \/ Ev.e = "prove" /\ Ev.res = "ok" /\ ProveTrue(Ev)
     \/ Ev.e = "verify" /\ ~Missing(Ev) /\ ~Surplus(Ev) /\ ~CallInit(Ev).bad
  /\ st' = TLCEval([StartCall(Ev, tbl) EXCEPT !.on = TRUE]) @@ [plan |-> PlanOf(Ev, tbl)]
  /\ UNCHANGED <<l, tbl, last, res, rng>>

Ask ==
  /\ st.on /\ Running(st.plan, st)
  /\ st' = TLCEval(AskStep(Ev, st.plan, st))
  /\ UNCHANGED <<l, tbl, last, res, rng>>

Finish ==
  /\ st.on /\ ~Running(st.plan, st)
  /\ IF Ev.e = "prove"
     THEN /\ Report(Ev, st.probs \o ProveProbs(Ev, st))
          /\ last' = [e |-> "prove", ok |-> TRUE, ev |-> Ev]
          /\ UNCHANGED res
     ELSE /\ Report(Ev, st.probs \o VerifyProbs(Ev, Verdict(st.call, Ev, st.plan), Honest(Ev, last), st)
                    \o Problem(st.qi >= Len(Ev.qs) + 1 \/ ~CallDone(st.call, st.plan), "qcount", "more queries than the protocol"))
          /\ res' = Ev.res
          /\ UNCHANGED last
  /\ tbl' = Learned(tbl, st, Ev)
  /\ st' = Idle /\ l' = l + 1 /\ UNCHANGED rng

\* --- the Fiat-Shamir generator
RngE ==
  /\ Ev.e = "rng"
  /\ LET g  == Ev.g
         s0 == IF g <= Len(rng.gens) THEN rng.gens[g] ELSE RngNew
         s1 == RngStep(s0, Ev.op, Ev.k, Ev.ids)
         draw == Ev.op \notin {"seed", "absorb"}
         key == <<DrawKey(s0, Ev.op, Ev.k), Ev.op>>
         same == {e \in {rng.outs[i] : i \in 1 .. Len(rng.outs)} : e.key = key}
         hit  == {e \in {rng.outs[i] : i \in 1 .. Len(rng.outs)} :
                    e.out = Ev.out /\ e.key[1] # key[1]}
         seeded == IF Ev.ids = <<>> THEN 0 ELSE Ev.ids[Len(Ev.ids)]
         ids == {rng.idOf[i] : i \in 1 .. Len(rng.idOf)}
     IN /\ Report(Ev,
             Problem(Ev.res = "ok", "rng", "generator crashed")
             \o (IF draw THEN
                   Problem(\A e \in same : e.out = Ev.out, "rng", "same history, another output")
                   \o Problem(Bytes(Ev.op, Ev.k) < 8 \/ hit = {}, "rng", "different histories, same output")
                   \o Problem(AllBitsVary(Append(rng.outs, [key |-> key, out |-> Ev.out, head |-> Ev.head]), Ev.op), "rng",
                              "bits of the output are constant")
                 ELSE
                   Problem(Ev.ids # <<>>, "rng", "seeding or absorbing without hashing")
                   \o Problem(\A e \in ids : (e[1] = s1.hist) = (e[2] = seeded), "rng",
                              "the seed is not determined by the history, or does not depend on it")))
        /\ rng' = TLCEval([gens |-> IF g <= Len(rng.gens) THEN [rng.gens EXCEPT ![g] = s1] ELSE Append(rng.gens, s1),
                   idOf |-> IF draw THEN rng.idOf ELSE Append(rng.idOf, <<s1.hist, seeded>>),
                   outs |-> IF draw THEN Append(rng.outs, [key |-> key, out |-> Ev.out, head |-> Ev.head]) ELSE rng.outs])
  /\ l' = l + 1 /\ UNCHANGED <<st, tbl, last, res>>

TNext == l <= N /\ (\/ Begin \/ Pure \/ TransportE \/ Layout \/ ProveRefused \/ VerifyMalformed
                    \/ Start \/ Ask \/ Finish \/ RngE)
TSpec == TInit /\ [][TNext]_vars
\* the whole trace has been read
Done == (l > N) => PrintT("TRACEDONE|" \o ToString(N))
=============================================================================
