----------------------------- MODULE MCInterleave -----------------------------
(***************************************************************************)
(* Calls that run at the same time.  Several verifications of pairing      *)
(* products are interleaved in every way, query by query; all ask the same *)
(* oracle, which gives a new query any answer.  The Fiat-Shamir generator  *)
(* of a call is its own (Shared = FALSE): then each call ends with the     *)
(* verdict it has on its own against the same oracle.  With one generator  *)
(* for all of them (Shared = TRUE) it does not.                            *)
(***************************************************************************)
EXTENDS RippSipp, FiniteSets, TLC

CONSTANTS Shared, Calls, Rounds
VARIABLES m,     \* the calls
          orc,   \* what the oracle has answered: contents of the query -> <<number, challenge>>
          gen    \* the generator's state if there is only one
vars == <<m, orc, gen>>

Ids == 1 .. Calls
N == 2 ^ Rounds
Start(i, v) == SippInit([k \in 1 .. N |-> (k + i) % P], [k \in 1 .. N |-> 1], [k \in 1 .. N |-> 1], v,
                        [k \in 1 .. Rounds |-> <<i % P, k % P>>])
View1(i) == IF Shared THEN [m[i] EXCEPT !.previd = gen] ELSE m[i]
Key(q) == <<q.tag, q.hist>>
Look(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<0, 0>>

Init == /\ \E vs \in [Ids -> {0, 1}] : m = [i \in Ids |-> Start(i, vs[i])]
        /\ orc = [k \in {} |-> 0] /\ gen = 0
Ask(i) ==
  /\ ~SippDone(m[i])
  /\ LET k == Key(SippQuery(View1(i))) IN
     \E x \in F \ {0} :
       /\ k \in DOMAIN orc => x = orc[k][2]
       /\ LET id == IF k \in DOMAIN orc THEN orc[k][1] ELSE Cardinality(DOMAIN orc) + 1 IN
          /\ orc' = IF k \in DOMAIN orc THEN orc ELSE orc @@ (k :> <<id, x>>)
          /\ m' = [m EXCEPT ![i] = SippFeed(View1(i), id, [x |-> x, c |-> 0, z |-> 0])]
          /\ gen' = id
Next == \E i \in Ids : Ask(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the call on its own, against the oracle as it has become
RECURSIVE Alone(_)
Alone(c) ==
  IF SippDone(c) THEN c
  ELSE LET a == Look(orc, Key(SippQuery(c)))
       IN IF a[1] = 0 THEN [c EXCEPT !.gts = <<>>, !.k = 0 - 2] ELSE Alone(SippFeed(c, a[1], [x |-> a[2], c |-> 0, z |-> 0]))
Undisturbed == \A i \in Ids : SippDone(m[i]) =>
  \E v \in {0, 1} : LET c == Alone(Start(i, v)) IN
    c.stmt = m[i].stmt /\ c.k = m[i].k /\ c.value = m[i].value /\ c.a = m[i].a /\ SippHolds(c) = SippHolds(m[i])
AllEnd == <>(\A i \in Ids : SippDone(m[i]))
=============================================================================
