-------------------------------- MODULE MCBind --------------------------------
(***************************************************************************)
(* What the challenges of an argument bind.  An adversary runs the machine *)
(* again and again with statements, commitments and messages of its own    *)
(* choice against one ideal oracle.  Whoever gets the same answer (the     *)
(* same query) has sent the same statement and the same messages before    *)
(* it, and is in the same round: the challenges of a transcript belong to  *)
(* that transcript.                                                        *)
(***************************************************************************)
EXTENDS RippArgs

CONSTANTS Rounds, Runs, BindStatement, Tipa
VARIABLES m, table, seen, runs
vars == <<m, table, seen, runs>>

\* small supplies of contents: enough to differ in one place only
Stmts == {<<1, 1, 1>>, <<1, 1, 2>>, <<2, 1, 1>>}
MsgsS == {<<1, 1, 1, 1, 1, 1>>, <<1, 1, 1, 1, 1, 2>>, <<2, 1, 1, 1, 1, 1>>}
Fcks == IF Tipa THEN {<<1, 1>>, <<1, 2>>} ELSE {<<>>}
Fresh(s, ms, fk) == ArgInit("V", "arg", FALSE, Tipa, s, ms, fk, 1, [ma |-> <<>>, mb |-> <<>>, cka |-> <<>>, ckb |-> <<>>, own |-> <<>>])

\* what is hashed; the alternative leaves the statement out of the first round
Query(a) == LET q == ArgQuery(a)
            IN IF BindStatement \/ a.ph # "rounds" \/ a.k > 0 THEN <<q.tag, q.hist>>
               ELSE <<q.tag, <<a.previd, a.nonce, a.msgs[1]>>>>
\* everything sent so far
Story(a) == [stmt |-> a.stmt, msgs |-> SubSeq(a.msgs, 1, IF a.ph = "rounds" THEN a.k + 1 ELSE a.k),
             fck |-> IF a.ph = "kzg" THEN a.fck ELSE <<>>, nonce |-> a.nonce, ph |-> a.ph]
Idle == [ph |-> "idle"]
Init == m = Idle /\ table = <<>> /\ seen = {} /\ runs = 0
StartRun == /\ m.ph \in {"idle", "done"} /\ runs < Runs
            /\ \E s \in Stmts, ms \in [1 .. Rounds -> MsgsS], fk \in Fcks : m' = Fresh(s, ms, fk)
            /\ runs' = runs + 1 /\ UNCHANGED <<table, seen>>
Ask ==
  /\ m.ph \notin {"idle", "done"}
  /\ LET q == Query(m)  k == {i \in 1 .. Len(table) : table[i].q = q} IN
     \E c \in IF k = {} THEN {0, 1, 2} \cap (IF m.nonce > 0 THEN {1, 2} ELSE F)
              ELSE {table[CHOOSE i \in k : TRUE].c} :
       LET id == IF k = {} THEN Len(table) + 1 ELSE CHOOSE i \in k : TRUE IN
       /\ table' = IF k = {} THEN Append(table, [q |-> q, c |-> c]) ELSE table
       /\ seen' = seen \cup {[id |-> id, story |-> Story(m)]}
       /\ m' = TLCEval(ArgFeed(m, id, [c |-> c, z |-> IF c = 0 THEN -1 ELSE c]))
  /\ UNCHANGED runs
Next == StartRun \/ Ask
Spec == Init /\ [][Next]_vars
Bound == \A a, b \in seen : a.id = b.id => a.story = b.story
\* and the same story always gets the same answer: prover and verifier agree
Agreed == \A a, b \in seen : a.story = b.story => a.id = b.id
View == <<m, table, seen>>
=============================================================================
