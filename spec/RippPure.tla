------------------------------- MODULE RippPure -------------------------------
(***************************************************************************)
(* The library's functions without interaction: inner products,            *)
(* commitments, reference strings, key openings, single-polynomial         *)
(* commitments.  Each event `ev` is one call with its arguments and its    *)
(* result; Judge(ev) is the sequence of <<category, detail>> of what is    *)
(* wrong with it.                                                          *)
(***************************************************************************)
EXTENDS RippCalls

Problem(ok, cat, what) == IF ok THEN <<>> ELSE << <<cat, what>> >>
RefusedRes == {"err", "panic", "rej"}

\* consecutive powers of some scalar t of some generator
IsPowersOf(v, t) == \A i \in 1 .. Len(v) - 1 : v[i + 1] = Mul(v[i], t)
Ratio(x, y) == Mul(x, Inv(y))
SrsOk(size, s) ==
  /\ Len(s.ga) = 2 * size - 1 /\ Len(s.hb) = 2 * size - 1
  /\ s.ga[1] # 0 /\ s.hb[1] # 0
  /\ IsPowersOf(s.ga, Ratio(s.ha, s.hb[1]))     \* the same alpha in both groups
  /\ IsPowersOf(s.hb, Ratio(s.gb, s.ga[1]))     \* the same beta in both groups

\* --- inner products
IpJudge(ev) ==
  IF Len(ev.a) # Len(ev.b)
  THEN IF ev.kind = "cmp" THEN <<>>       \* the raw pairing product: no check is promised
       ELSE Problem(ev.res = "err", "value", "vectors of different length must be refused")
  ELSE Problem(ev.res = "ok" /\ ev.value = Dot(ev.a, ev.b), "value", "not the sum of the pairwise products")
SprodJudge(ev) ==
  IF Len(ev.a) # Len(ev.b) \/ Len(ev.r) < Len(ev.a) THEN <<>>
  ELSE Problem(ev.res = "ok" /\ ev.value = SippProduct(ev.a, ev.b, ev.r), "value",
               "not the product of the scaled pairings")

\* --- commitments
IsId(kind) == kind \in {"idf", "id1", "idt"}
SameLen(ev) == Len(ev.k) = Len(ev.m)
\* value of a commitment; a structured message is not committed (any value)
ComValue(ev) == IF IsId(ev.kind) THEN ev.m[1] ELSE Dot(ev.k, ev.m)
CommitJudge(ev) ==
  IF ev.kind = "ssm" THEN Problem(ev.res = "ok", "value", "placeholder commitment failed")
  ELSE IF IsId(ev.kind) THEN
    IF Len(ev.m) # 1 THEN <<>>
    ELSE Problem(ev.res = "ok" /\ ev.com = ComValue(ev), "value", "wrong commitment")
  ELSE IF SameLen(ev) THEN Problem(ev.res = "ok" /\ ev.com = ComValue(ev), "value", "wrong commitment")
  ELSE Problem(ev.res = "err", "value", "key and message of different length must be refused")
CverifyJudge(ev) ==
  IF ev.kind = "ssm" \/ (IsId(ev.kind) /\ Len(ev.m) # 1) THEN <<>>
  ELSE IF ~IsId(ev.kind) /\ ~SameLen(ev)
       THEN Problem(ev.res \in {"err", "rej"}, "value", "opening of another length accepted")
       ELSE Problem((ev.res = "acc") = (ev.com = ComValue(ev)) /\ ev.res # "panic", "value",
                    "opening accepted or rejected wrongly")
OutopsJudge(ev) ==
  IF ev.kind = "ssm" THEN <<>>
  ELSE Problem(ev.res = "ok" /\ ev.sum = Add(ev.x, ev.y) /\ ev.scaled = Mul(ev.x, ev.s), "value",
               "sum or multiple of commitments wrong")
CsetupJudge(ev) ==
  IF ev.kind = "ssm" \/ IsId(ev.kind) THEN Problem(ev.res = "ok", "value", "setup failed")
  ELSE Problem(ev.res = "ok" /\ Len(ev.k) = ev.size, "value", "key of wrong size")

\* --- structured powers and reference strings
SpowersJudge(ev) ==
  \* a reference string of no elements is not one: the code refuses it or returns the generator
  IF ev.num = 0 THEN <<>>
  ELSE Problem(ev.res = "ok" /\ ev.powers = VScale(Powers(ev.s, ev.num), ev.g), "srs", "not the consecutive powers")
\* the message 1, s, s^2, ... as callers of the structured-message arguments obtain it
MessageJudge(ev) ==
  Problem(ev.res = "ok" /\ ev.powers = Powers(ev.s, ev.num), "incomplete", "the message for a scalar is not its powers")
SrskeysJudge(ev) ==
  Problem(ev.res = "ok" /\ ev.cka = Evens(ev.srs.hb) /\ ev.ckb = Evens(ev.srs.ga) /\ ev.vk = VKof(ev.srs),
          "srs", "keys are not the even powers, or verifier key does not match")

SetupJudge(ev) ==
  IF ev.op = "agg" THEN Problem(ev.res = "ok" /\ SrsOk(ev.size, ev.srs), "srs", "reference string malformed")
  ELSE IF ev.op \in {"tipa", "tssm"}
  THEN Problem(/\ ev.res = "ok"
               /\ SrsOk(ev.size, ev.srs)
               /\ ev.cka = Evens(ev.srs.hb)
               /\ ev.op = "tipa" => ev.ckb = Evens(ev.srs.ga),
               "srs", "reference string or commitment keys malformed")
  ELSE Problem(/\ ev.res = "ok" /\ Len(ev.cka) = ev.size
               /\ ev.op = "gipa" => Len(ev.ckb) = ev.size, "srs", "keys of wrong size")
AcommitJudge(ev) ==
  Problem(/\ ev.res = "ok" /\ ev.t = Dot(ev.ma, ev.mb)
          /\ ev.com[1] = Dot(ev.cka, ev.ma)
          /\ ~IsSsm(ev.op) => ev.com[2] = Dot(ev.ckb, ev.mb)
          /\ ev.com[3] = Mul(ev.ckt, ev.t), "value", "inner product or commitment wrong")

\* --- openings of final commitment keys (g1: right key, under alpha; g2: left key, under beta)
CkTrapdoor(ev, vk) == IF ev.kind = "g1" THEN Ratio(vk.ha, vk.h) ELSE Ratio(vk.gb, vk.g)
CkopenJudge(ev) ==
  \* challenges are invertible and so is the shift: with a zero among them the key polynomial loses degree, which no
  \* run of the arguments reaches; the code may then refuse, but what it returns has to be right
  Problem(\/ ev.res = "panic" /\ (ev.r = 0 \/ \E i \in DOMAIN ev.ts : ev.ts[i] = 0)
          \/ ev.res = "ok" /\ ev.pi = OpenPoly(ev.powers, KeyPoly(ev.ts, ev.r), ev.z), "value",
          "not the commitment to the quotient")
CkHolds(ev) ==
  LET p == KeyPolyAt(ev.ts, ev.r, ev.z) IN
  IF ev.kind = "g1"
  THEN Mul(Sub(ev.fk, Mul(ev.vk.g, p)), ev.vk.h) = Mul(ev.pi, Sub(ev.vk.ha, Mul(ev.vk.h, ev.z)))
  ELSE Mul(ev.vk.g, Sub(ev.fk, Mul(ev.vk.h, p))) = Mul(Sub(ev.vk.gb, Mul(ev.vk.g, ev.z)), ev.pi)
CkverifyJudge(ev) ==
  IF CkHolds(ev) THEN Problem(ev.res = "acc", "strict", "valid key opening rejected")
  ELSE Problem(ev.res # "acc", "lax", "invalid key opening accepted")
       \o Problem(ev.res # "panic", "crash", "key opening check crashed")

\* --- single polynomials
KsetupJudge(ev) ==
  Problem(/\ ev.res = "ok" /\ Len(ev.powers) = ev.deg + 1
          /\ ev.powers[1] = ev.vk.g /\ ev.vk.g # 0 /\ ev.vk.h # 0
          /\ IsPowersOf(ev.powers, Ratio(ev.vk.ha, ev.vk.h)), "srs", "powers or verifier key malformed")
KcommitJudge(ev) ==
  IF KzgFits(ev.powers, ev.f)
  THEN Problem(ev.res = "ok" /\ ev.com = KzgCommit(ev.powers, ev.f), "value", "wrong commitment")
  ELSE Problem(ev.res \in {"err", "panic"}, "lax", "polynomial of too high degree not refused")
KopenJudge(ev) ==
  IF KzgFits(ev.powers, ev.f)
  THEN Problem(ev.res = "ok" /\ ev.pi = KzgOpen(ev.powers, ev.f, ev.z), "value", "wrong opening")
  ELSE <<>>
KverifyJudge(ev) ==
  LET honest == /\ KzgFits(ev.powers, ev.f) /\ ev.v = PEval(ev.f, ev.z)
                /\ ev.com = KzgCommit(ev.powers, ev.f) /\ ev.pi = KzgOpen(ev.powers, ev.f, ev.z)
                /\ ev.powers[1] = ev.vk.g /\ ev.vk.h # 0
                /\ IsPowersOf(ev.powers, Ratio(ev.vk.ha, ev.vk.h))
      holds == KzgHolds(ev.vk, ev.com, ev.z, ev.v, ev.pi)
  IN Problem(honest => ev.res = "acc", "incomplete", "true evaluation rejected")
     \o Problem(holds => ev.res = "acc", "strict", "valid opening rejected")
     \o Problem(~holds => ev.res # "acc", "lax", "invalid opening accepted")
     \o Problem(ev.res # "panic", "crash", "verifier crashed")

\* --- two-tier polynomial commitments
PsetupJudge(ev) ==
  LET nx == IF ev.op = "tpc" THEN (Len(ev.xk) + 1) \div 2 ELSE Len(ev.xk)
      ny == Len(ev.yk)
  IN Problem(ev.res = "ok" /\ nx > 0 /\ ny > 0, "setup", "setup does not serve the degree")
     \o IF ev.res # "ok" \/ nx = 0 \/ ny = 0 THEN <<>> ELSE
        Problem(IF ev.uni THEN nx * ny >= ev.deg + 1 ELSE nx >= ev.xd + 1 /\ ny >= ev.yd + 1,
                "setup", "keys too short for the degree")
        \o Problem(ev.op = "tpc" =>
              /\ Len(ev.xk) = 2 * nx - 1
              /\ ev.yk[1] = ev.vk.g /\ ev.xk[1] = ev.vk.h /\ ev.vk.g # 0 /\ ev.vk.h # 0
              /\ IsPowersOf(ev.yk, Ratio(ev.vk.ha, ev.vk.h))
              /\ IsPowersOf(ev.xk, Ratio(ev.vk.gb, ev.vk.g)), "srs", "polynomial commitment keys malformed")
PcommitJudge(ev) ==
  LET ck == XKey(ev)
      coms == BiComs(ev.yk, RowsOf(ev, Len(ck), Len(ev.yk)))
  IN IF PolyFits(ev, Len(ck), Len(ev.yk))
     THEN Problem(ev.res = "ok", "setup", "polynomial within the degree refused")
          \o IF ev.res # "ok" THEN <<>> ELSE
             Problem(ev.com = Dot(ck, coms) /\ ev.coms = coms, "value", "commitment misses coefficients")
     ELSE Problem(ev.res \in {"err", "panic"}, "value", "polynomial that does not fit was committed")
PevalJudge(ev) ==
  Problem(ev.res = "ok" /\ ev.value = BiEval(ev.f, ev.point[1], ev.point[2]), "value", "wrong evaluation")

\* --- identity commitments of whole lists
IdlistJudge(ev) ==
  Problem(ev.res = "ok", "value", "identity commitment failed")
  \o IF ev.res # "ok" THEN <<>> ELSE
     Problem(ev.com = ev.m, "value", "identity commitment is not the message")
     \o Problem(ev.ver = (ev.other = ev.m), "value", "identity opening accepted or rejected wrongly")
     \o Problem(ev.sum = VAdd(ev.x, ev.y) /\ ev.scaled = VScale(ev.x, ev.s), "value", "sum or multiple of identity commitments wrong")

(***************************************************************************)
(* Generated keys: ev.all lists the keys of several setups (each a list of *)
(* lists).  Elements of a key are distinct and not neutral, the lists of   *)
(* one setup, and the keys of two setups, are unrelated.  In groups this   *)
(* small accidents happen: only when a quarter of the setups show it.      *)
(***************************************************************************)
\* (long lists cannot be distinct in groups this small: nearly all of their elements are)
Values(v) == {v[i] : i \in 1 .. Len(v)}
Distinct(v) == IF Len(v) <= 64 THEN Cardinality(Values(v)) = Len(v) /\ 0 \notin Values(v)
               ELSE 10 * Cardinality(Values(v)) >= 9 * Len(v)
MinLen(v, w) == IF Len(v) < Len(w) THEN Len(v) ELSE Len(w)
SameRatios(v, w) == \A i \in 1 .. MinLen(v, w) : Mul(v[i], w[1]) = Mul(w[i], v[1])
\* the ratio of the first two elements is no small power of the other list's
SmallPowers(r) == {r, Mul(r, r), Mul(r, Mul(r, r)), Inv(r), Inv(Mul(r, r)), 1}
PowerRelated(v, w) ==
  /\ Len(v) > 1 /\ Len(w) > 1
  /\ LET r == Mul(v[2], Inv(v[1])) q == Mul(w[2], Inv(w[1])) IN r \in SmallPowers(q) \/ q \in SmallPowers(r)
KeysFine(lists) ==
  /\ lists # <<>>
  /\ \A i \in 1 .. Len(lists) : Distinct(lists[i])
  /\ \A i, j \in 1 .. Len(lists) : i < j => ~SameRatios(lists[i], lists[j]) /\ ~PowerRelated(lists[i], lists[j])
KeysJudge(ev) ==
  LET K == Len(ev.all)
      fine == TLCEval({i \in 1 .. K : KeysFine(ev.all[i])})
      shared == {i \in fine : ~\A j \in fine : i # j => \A k \in 1 .. Len(ev.all[i]) : ~SameRatios(ev.all[i][k], ev.all[j][k])}
  IN Problem(4 * (K - Cardinality(fine)) <= K, "fresh", "generated keys have repeated or neutral elements, or two keys are related")
     \o Problem(4 * Cardinality(shared) <= K, "fresh", "keys of different setups are related")

\* --- transport: `last` is the previous event on the same proof
TransportJudge(ev, res) ==
  Problem(ev.b1 = ev.b2, "transport", "re-serialised to other bytes, or not readable")
  \o Problem(ev.proof = ev.proof2, "transport", "read back as another proof")
  \o Problem(ev.trunc = 0, "transport", "truncated encoding read without error")
  \o Problem(ev.alien = 0, "transport", "corrupted encoding read, with values outside the groups, without error")
  \o Problem(ev.res = res, "transport", "another verdict after transport")

PureEvents == {"ip", "sprod", "commit", "cverify", "outops", "csetup", "spowers", "srskeys", "setup", "acommit",
               "ckopen", "ckverify", "ksetup", "kcommit", "kopen", "kverify", "psetup", "pcommit", "peval",
               "idlist", "keys", "message"}
Judge(ev) ==
  CASE ev.e = "ip"       -> IpJudge(ev)
    [] ev.e = "sprod"    -> SprodJudge(ev)
    [] ev.e = "commit"   -> CommitJudge(ev)
    [] ev.e = "cverify"  -> CverifyJudge(ev)
    [] ev.e = "outops"   -> OutopsJudge(ev)
    [] ev.e = "csetup"   -> CsetupJudge(ev)
    [] ev.e = "spowers"  -> SpowersJudge(ev)
    [] ev.e = "srskeys"  -> SrskeysJudge(ev)
    [] ev.e = "setup"    -> SetupJudge(ev)
    [] ev.e = "acommit"  -> AcommitJudge(ev)
    [] ev.e = "ckopen"   -> CkopenJudge(ev)
    [] ev.e = "ckverify" -> CkverifyJudge(ev)
    [] ev.e = "ksetup"   -> KsetupJudge(ev)
    [] ev.e = "kcommit"  -> KcommitJudge(ev)
    [] ev.e = "kopen"    -> KopenJudge(ev)
    [] ev.e = "kverify"  -> KverifyJudge(ev)
    [] ev.e = "psetup"   -> PsetupJudge(ev)
    [] ev.e = "pcommit"  -> PcommitJudge(ev)
    [] ev.e = "peval"    -> PevalJudge(ev)
    [] ev.e = "idlist"   -> IdlistJudge(ev)
    [] ev.e = "keys"     -> KeysJudge(ev)
    [] ev.e = "message"  -> MessageJudge(ev)
=============================================================================
