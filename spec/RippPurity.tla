------------------------------ MODULE RippPurity ------------------------------
(***************************************************************************)
(* Calls are functions of their arguments.  Two recordings of the same     *)
(* scenarios are read side by side: in one (TRACE) many sessions ran in    *)
(* one process, at the same time and one after another, on several         *)
(* threads; in the other (TRACE2) every session had a process of its own   *)
(* with one thread, and every verification left no trace in it.  Whatever  *)
(* a call was given is part of its event, and so is all it returned: the   *)
(* events have to be the same.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

A == ndJsonDeserialize(IOEnv.TRACE)
B == ndJsonDeserialize(IOEnv.TRACE2)
VARIABLES i, j
vars == <<i, j>>

Fields(a, b) == IF DOMAIN a # DOMAIN b THEN {"fields"} ELSE {f \in DOMAIN a : ToString(a[f]) # ToString(b[f])}
\* the first event of the next scenario
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
NextOf(T, k) == Min({Len(T) + 1} \cup {m \in k + 1 .. Len(T) : T[m].e = "begin"})
Say(k, what) == PrintT("MISMATCH|" \o ToString(k) \o "|" \o ToString(A[k].n) \o "|repeat|" \o what)

Init == i = 1 /\ j = 1
Same ==
  /\ i <= Len(A) /\ j <= Len(B)
  /\ Fields(A[i], B[j]) = {}
  /\ i' = i + 1 /\ j' = j + 1
Differ ==
  /\ i <= Len(A) /\ j <= Len(B)
  /\ LET d == Fields(A[i], B[j]) IN
     /\ d # {}
     /\ Say(i, "result differs from that of the same call on its own in " \o ToString(d))
  /\ i' = NextOf(A, i) /\ j' = NextOf(B, j)
Surplus ==
  /\ i <= Len(A) /\ j > Len(B)
  /\ Say(i, "no such call when on its own")
  /\ i' = Len(A) + 1 /\ j' = j
Next == Same \/ Differ \/ Surplus
Spec == Init /\ [][Next]_vars
Done == (i > Len(A)) => PrintT("TRACEDONE|" \o ToString(Len(A)))
=============================================================================
