------------------------------ MODULE RippField ------------------------------
(***************************************************************************)
(* Arithmetic of the prime field Z_P and of vectors over it.               *)
(*                                                                         *)
(* Every group of the library (G1, G2, GT and the scalar field itself) is  *)
(* cyclic of the same prime order P, so an element is represented by its   *)
(* discrete logarithm: the group operation is addition mod P, scaling is   *)
(* multiplication, and the pairing of a*G1 and b*G2 is (a*b)*GT.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANT P                     \* prime, P*P < 2^31 (TLC integers)

F == 0 .. (P - 1)

Add(x, y) == (x + y) % P
Sub(x, y) == (x - y) % P
Mul(x, y) == (x * y) % P
Neg(x)    == (0 - x) % P

RECURSIVE PowR(_, _)
PowR(x, e) ==
  IF e = 0 THEN 1
  ELSE LET h == TLCEval(PowR(x, e \div 2))
           s == (h * h) % P
       IN IF e % 2 = 0 THEN s ELSE (s * x) % P
Pow(x, e) == TLCEval(PowR(x, e) % P)
Inv(x)    == Pow(x, P - 2)     \* 0 for x = 0

Idx(n) == [i \in 1 .. n |-> i]
Dot(a, b) == FoldLeftDomain(LAMBDA acc, i : (acc + a[i] * b[i]) % P, 0, a)
Sum(a)    == FoldLeft(LAMBDA acc, x : (acc + x) % P, 0, a)
Prod(a)   == FoldLeft(LAMBDA acc, x : (acc * x) % P, 1, a)
VAdd(a, b)   == [i \in 1 .. Len(a) |-> (a[i] + b[i]) % P]
VMul(a, b)   == [i \in 1 .. Len(a) |-> (a[i] * b[i]) % P]
VScale(a, x) == [i \in 1 .. Len(a) |-> (a[i] * x) % P]
\* 1, b, b^2, ...  (n entries)
Powers(b, n) == FoldLeft(LAMBDA acc, i : Append(acc, (acc[Len(acc)] * b) % P),
                         <<1>>, Idx(n - 1))
LeftHalf(a)  == SubSeq(a, 1, Len(a) \div 2)
RightHalf(a) == SubSeq(a, Len(a) \div 2 + 1, Len(a))
IsPow2(n)    == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048}
Log2(n)      == CHOOSE k \in 0 .. 11 : 2 ^ k = n
Evens(a)     == [i \in 1 .. (Len(a) + 1) \div 2 |-> a[2 * i - 1]]
Pad(a, n)    == [i \in 1 .. n |-> IF i <= Len(a) THEN a[i] ELSE 0]

\* polynomials: sequences of coefficients, constant term first
PEval(f, x) == FoldRight(LAMBDA c, acc : (acc * x + c) % P, f, 0)
\* quotient of f by (X - z)
PQuot(f, z) ==
  IF Len(f) <= 1 THEN <<>>
  ELSE Reverse(SubSeq(
         FoldRight(LAMBDA c, acc :
                     IF acc = <<>> THEN <<c>>
                     ELSE Append(acc, (acc[Len(acc)] * z + c) % P), f, <<>>),
         1, Len(f) - 1))
\* degree, with the zero polynomial counted as a constant
PDeg(f) == LET nz == {i \in 1 .. Len(f) : f[i] # 0}
           IN IF nz = {} THEN 0 ELSE (CHOOSE m \in nz : \A j \in nz : j <= m) - 1
=============================================================================
