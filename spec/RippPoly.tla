------------------------------- MODULE RippPoly -------------------------------
(***************************************************************************)
(* Polynomial commitments: KZG for one polynomial, and two-tier            *)
(* commitments for polynomials in two variables (or one variable, split).  *)
(* A bivariate polynomial is a sequence of polynomials in Y: the i-th is   *)
(* the coefficient of X^(i-1).                                             *)
(***************************************************************************)
EXTENDS RippArgs

\* --- KZG
KzgCommit(powers, f) == Dot(Pad(f, Len(powers)), powers)
KzgOpen(powers, f, z) == Dot(PQuot(f, z), powers)
KzgHolds(vk, com, z, v, pi) ==
  Mul(Sub(com, Mul(vk.g, v)), vk.h) = Mul(pi, Sub(vk.ha, Mul(vk.h, z)))
KzgFits(powers, f) == PDeg(f) + 1 <= Len(powers)

\* --- two tiers: ny-element keys for the Y polynomials, nx of them
BiFits(nx, ny, fs) == Len(fs) <= nx /\ \A i \in 1 .. Len(fs) : PDeg(fs[i]) + 1 <= ny
BiRows(nx, ny, fs) == [i \in 1 .. nx |-> IF i <= Len(fs) THEN Pad(fs[i], ny) ELSE Pad(<<>>, ny)]
BiComs(yk, rows) == [i \in 1 .. Len(rows) |-> Dot(rows[i], yk)]
BiEvalRow(rows, x) == LET px == TLCEval(Powers(x, Len(rows)))
  IN [j \in 1 .. Len(rows[1]) |->
        FoldLeftDomain(LAMBDA acc, i : (acc + rows[i][j] * px[i]) % P, 0, rows)]
BiEval(fs, x, y) == PEval([i \in 1 .. Len(fs) |-> PEval(fs[i], y)], x)

\* --- one variable: consecutive blocks of ny coefficients
UniFits(nx, ny, f) == PDeg(f) + 1 <= nx * ny
UniRows(nx, ny, f) ==
  LET g == Pad(f, nx * ny)
  IN [i \in 1 .. nx |-> SubSeq(g, (i - 1) * ny + 1, i * ny)]
UniX(ny, z) == Pow(z, ny)
=============================================================================
