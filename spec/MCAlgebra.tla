------------------------------ MODULE MCAlgebra ------------------------------
(***************************************************************************)
(* The algebraic facts the specification of the pure functions rests on,   *)
(* for every value of a small field.                                       *)
(***************************************************************************)
EXTENDS RippPure

CONSTANT Part
VARIABLE s
NZ == F \ {0}
Vec(n) == {TLCEval([i \in 1 .. n |-> v[i]]) : v \in [1 .. n -> F]}
V1 == Vec(1)
V2 == Vec(2)
V3 == Vec(3)
V4 == Vec(4)
MkSrs(n, g, h, al, be) == [ga |-> VScale(Powers(al, 2 * n - 1), g), hb |-> VScale(Powers(be, 2 * n - 1), h),
                           gb |-> Mul(g, be), ha |-> Mul(h, al)]

Init == s = [w |-> "start"]
Next ==
  /\ s.w = "start"
  /\ CASE Part = "commit" -> \E k \in V2, m \in V2, k2 \in V2, m2 \in V2, x \in F :
              s' = [w |-> "commit", k |-> k, m |-> m, k2 |-> k2, m2 |-> m2, x |-> x]
       [] Part = "poly" -> \E f \in V4, z \in F, y \in F : s' = [w |-> "poly", f |-> f, z |-> z, y |-> y]
       [] Part = "kzg" -> \E f \in V3, g \in NZ, h \in NZ, al \in F, z \in F, v \in F :
              s' = [w |-> "kzg", f |-> f, g |-> g, h |-> h, al |-> al, z |-> z, v |-> v]
       [] Part = "srs" -> \E ga \in V3, hb \in V3, gb \in F, ha \in F : s' = [w |-> "srs", srs |-> [ga |-> ga, hb |-> hb, gb |-> gb, ha |-> ha]]
       [] Part = "keys" -> \E r1 \in NZ, r2 \in NZ, sh \in NZ, al \in F, z \in F, b \in F :
              s' = [w |-> "keys", ts |-> <<r1, r2>>, sh |-> sh, al |-> al, z |-> z, b |-> b]
       [] Part = "shape" -> \E nx \in 1 .. 5, ny \in 1 .. 5, len \in 0 .. 26, z \in F :
              s' = [w |-> "shape", nx |-> nx, ny |-> ny, len |-> len, z |-> z]
Spec == Init /\ [][Next]_s

\* --- commitments are linear in key and message; sums may be split anywhere
Bilinear == s.w = "commit" =>
  /\ Dot(VAdd(s.k, s.k2), s.m) = Add(Dot(s.k, s.m), Dot(s.k2, s.m))
  /\ Dot(s.k, VAdd(s.m, s.m2)) = Add(Dot(s.k, s.m), Dot(s.k, s.m2))
  /\ Dot(s.k, VScale(s.m, s.x)) = Mul(s.x, Dot(s.k, s.m))
  /\ Dot(VScale(s.k, s.x), s.m) = Mul(s.x, Dot(s.k, s.m))
  /\ LET a == s.k \o s.k2  b == s.m \o s.m2 IN
     \A c \in 0 .. 4 : Dot(a, b) = Add(Dot(SubSeq(a, 1, c), SubSeq(b, 1, c)), Dot(SubSeq(a, c + 1, 4), SubSeq(b, c + 1, 4)))
  /\ Dot(Reverse(s.k), Reverse(s.m)) = Dot(s.k, s.m)

\* --- division by X - z, two-tier evaluation
Division == s.w = "poly" =>
  /\ PEval(s.f, s.y) = (PEval(s.f, s.z) + (s.y - s.z) * PEval(PQuot(s.f, s.z), s.y)) % P
  /\ \A ny \in {1, 2, 3, 4} : LET nx == (4 + ny - 1) \div ny  rows == UniRows(nx, ny, s.f) IN
       /\ BiEval(rows, UniX(ny, s.z), s.z) = PEval(s.f, s.z)
       /\ PEval(BiEvalRow(rows, UniX(ny, s.z)), s.z) = PEval(s.f, s.z)
  /\ BiEval(<<<<s.f[1], s.f[2]>>, <<s.f[3], s.f[4]>>>>, s.y, s.z)
       = PEval(BiEvalRow(<<<<s.f[1], s.f[2]>>, <<s.f[3], s.f[4]>>>>, s.y), s.z)

\* --- KZG: the honest opening holds exactly for the true value, at every point
KzgExact == s.w = "kzg" =>
  LET pw == VScale(Powers(s.al, 3), s.g)  vk == [g |-> s.g, h |-> s.h, ha |-> Mul(s.h, s.al), gb |-> 0]
  IN KzgHolds(vk, KzgCommit(pw, s.f), s.z, s.v, KzgOpen(pw, s.f, s.z)) <=> s.v = PEval(s.f, s.z)

\* --- what is demanded of a reference string is exactly that it consists of powers of two trapdoors
SrsExact == s.w = "srs" =>
  (SrsOk(2, s.srs) <=> \E g \in NZ, h \in NZ, al \in F, be \in F : s.srs = MkSrs(2, g, h, al, be))

\* --- key openings: closed form, honest openings hold, and only for the right key
KeyOpenings == s.w = "keys" =>
  LET srs == MkSrs(4, 1, 1, s.al, Add(s.al, 1))  vk == [g |-> 1, h |-> 1, gb |-> srs.gb, ha |-> srs.ha]
      pa == KeyPoly(InvAll(s.ts), Inv(s.sh))  pb == KeyPoly(s.ts, 1)
      fa == Dot(pa, srs.hb)  fb == Dot(pb, srs.ga)
  IN /\ PEval(pa, s.z) = KeyPolyAt(InvAll(s.ts), Inv(s.sh), s.z) /\ PEval(pb, s.z) = KeyPolyAt(s.ts, 1, s.z)
     /\ fa = FinalKey(VMul(Evens(srs.hb), Powers(Inv(s.sh), 4)), InvAll(s.ts)) /\ fb = FinalKey(Evens(srs.ga), s.ts)
     /\ \A d \in F : OpenedA(vk, s.ts, s.sh, s.z, Add(fa, d), OpenPoly(srs.hb, pa, s.z)) <=> d = 0
     /\ \A d \in F : OpenedB(vk, s.ts, s.z, Add(fb, d), OpenPoly(srs.ga, pb, s.z)) <=> d = 0
     /\ FoldedPowers(InvAll(s.ts), s.b) = Dot(Powers(s.b, 4), KeyCoefs(InvAll(s.ts), 1))

\* --- splitting a polynomial into rows loses no coefficient
RowsCover == s.w = "shape" =>
  LET f == [i \in 1 .. s.len |-> (i * i + i + 1) % P] IN
  UniFits(s.nx, s.ny, f) =>
    /\ BiEval(UniRows(s.nx, s.ny, f), UniX(s.ny, s.z), s.z) = PEval(f, s.z)
    /\ \A i \in 1 .. s.len : f[i] # 0 => UniRows(s.nx, s.ny, f)[((i - 1) \div s.ny) + 1][((i - 1) % s.ny) + 1] = f[i]
=============================================================================
