------------------------------ MODULE MCVerdict ------------------------------
(***************************************************************************)
(* The verifier of the specification on arbitrary proofs: too few and too  *)
(* many rounds, any contents, any answers of the oracle.  It always        *)
(* finishes (the retries are bounded here) and has a verdict; a proof of   *)
(* a wrong shape is never accepted.                                        *)
(***************************************************************************)
EXTENDS RippCalls

CONSTANTS Op, N, MaxRounds, Retries
VARIABLES ev, call
vars == <<ev, call>>

NFck(op) == CASE op = "tipa" -> 2 [] op = "tssm" -> 1 [] OTHER -> 0
Round == {<<a, 1, b, 0, a, 1>> : a \in {0, 1}, b \in {1, 2}}
Two == {0, 2}
Fck(n) == IF n = 0 THEN {<<>>} ELSE IF n = 1 THEN {<<a>> : a \in Two} ELSE {<<a, b>> : a \in Two, b \in {1}}
Start ==
  /\ ev = <<>>
  /\ \/ /\ Op \in ArgOps
        /\ \E k \in 0 .. MaxRounds, r \in [1 .. MaxRounds -> Round], a \in F, b \in Two, fk \in Fck(NFck(Op)), c \in F, d \in Two, bad \in {0, 1, 2} :
             ev' = [e |-> "verify", op |-> Op, cka |-> [i \in 1 .. N |-> i % P],
                    ckb |-> [i \in 1 .. (IF bad = 2 THEN N + 1 ELSE N) |-> 1], ckt |-> 1,
                    com |-> <<c, d, 1>>, vk |-> [g |-> 1, h |-> 1, gb |-> 2, ha |-> d], shift |-> 1,
                    proof |-> [steps |-> [i \in 1 .. k |-> IF bad = 1 /\ i = 1 THEN <<-1, 0, 0, 0, 0, 0>> ELSE r[i]],
                               base |-> <<a, b>>, fck |-> fk, fpi |-> [i \in 1 .. NFck(Op) |-> 1]]]
     \/ /\ Op = "sipp"
        /\ \E k \in 0 .. MaxRounds, g \in [1 .. MaxRounds -> F \X F], a \in [1 .. N -> F], v \in F :
             ev' = [e |-> "verify", op |-> Op, a |-> [i \in 1 .. N |-> a[i]], b |-> [i \in 1 .. N |-> i % P], r |-> [i \in 1 .. N |-> 1], value |-> v,
                    proof |-> [i \in 1 .. k |-> g[i]]]
  /\ call' = CallInit(ev')
Ord == Default
Step ==
  /\ ev # <<>> /\ ~call.bad /\ ~CallDone(call, Ord)
  /\ LET a0 == IF Op = "sipp" THEN {[c |-> 0, z |-> 0, x |-> x] : x \in F \ {0}}
               ELSE LET m == call.ams[1] more == m.nonce < Retries IN
                 IF m.ph = "rounds" THEN {[c |-> x, z |-> 0, x |-> 0] : x \in IF more THEN F ELSE F \ {0}}
                 ELSE {[c |-> 0, z |-> z, x |-> 0] : z \in IF more THEN F \cup {-1} ELSE F}
     IN \E a \in a0 : call' = TLCEval(CallFeed(call, ev, Ord, 1, a))
  /\ UNCHANGED ev
Init == ev = <<>> /\ call = [bad |-> FALSE]
Next == Start \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == ev # <<>> /\ (call.bad \/ CallDone(call, Ord))
HasVerdict == ev # <<>> =>
  LET v == Verdict(call, ev, Ord) IN
  /\ v \in {"acc", "non", "any", "open"}
  /\ Over => v # "open"
  /\ Op \in {"gipa", "ssm"} /\ ~RoundsOk(N, ev.proof) => v = "non"
  /\ Op = "gipa" /\ Len(ev.ckb) # N => v = "non"
  /\ Op = "sipp" /\ Len(ev.proof) # Log2(N) => v = "non"
Finishes == <>Over
\* what is known to be wrong stays wrong: a verifier may reject without asking further
Settled == [][ev # <<>> /\ Verdict(call, ev, Ord) = "non" => Verdict(call', ev', Ord) = "non"]_vars
=============================================================================
