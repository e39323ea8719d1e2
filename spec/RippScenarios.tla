---------------------------- MODULE RippScenarios ----------------------------
(***************************************************************************)
(* The inputs on which the library is driven: for each property and tier,  *)
(* the bounded space of statements, keys, challenge plans, alterations and *)
(* constructed proofs, enumerated here and written as one JSON record per  *)
(* scenario.  (Patterns are filled with pseudo-random non-zero numbers     *)
(* modulo P by the harness.)                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Prop == IOEnv.PROPERTY
Deep == IOEnv.TIER = "thorough"
OutFile == IOEnv.SCENARIOS

Map1(f(_), A) == [i \in 1 .. Len(A) |-> f(A[i])]
Map2(f(_, _), A, B) == FlattenSeq([i \in 1 .. Len(A) |-> [j \in 1 .. Len(B) |-> f(A[i], B[j])]])
Map3(f(_, _, _), A, B, C) ==
  FlattenSeq([i \in 1 .. Len(A) |-> Map2(LAMBDA b, c : f(A[i], b, c), B, C)])
Map4(f(_, _, _, _), A, B, C, D) ==
  FlattenSeq([i \in 1 .. Len(A) |-> Map3(LAMBDA b, c, d : f(A[i], b, c, d), B, C, D)])
Range1(a, b) == [i \in 1 .. (b - a + 1) |-> a + i - 1]
Lg(n) == CHOOSE k \in 0 .. 12 : 2 ^ k = n
IfDeep(a, b) == IF Deep THEN a ELSE b
BIG == 46337
Ps == IfDeep(<<BIG, 7>>, <<BIG>>)
\* the whole session in a pool of so many threads
Threaded(s, t) == [threads |-> t] @@ s
SThreads == IfDeep(<<1, 2, 3, 5, 16>>, <<1, 3>>)

----------------------------------------------------------------------------
Vecs == <<"rand", "zero", "one", "neg", "rep", "sparse", "head0", "tail0", "first0", "last0",
          "onlylast", "onlyfirst", "alt", "halves", "anti", "seq">>
Plans == <<"rand", "retry1", "retry1x3", "retryall", "retry2", "retry3", "cneg", "c1", "c2">>
M(s, i, j, m) == [s |-> s, i |-> i, j |-> j, m |-> m]
MP(p, s, i, j, m) == [part |-> p, s |-> s, i |-> i, j |-> j, m |-> m]

GipaKinds == <<"pair", "mexp", "mexp2", "scalar", "scalarp">>
TipaKinds == <<"pair", "mexp", "scalar", "scalarp">>
SsmKinds  == <<"mexp", "scalar", "scalarp">>
TssmKinds == <<"mexp", "scalar">>
KindsOf(op) == CASE op = "gipa" -> GipaKinds [] op = "tipa" -> TipaKinds
                 [] op = "ssm" -> SsmKinds [] op = "tssm" -> TssmKinds
Shifts == <<"one", "neg", "half", "rand">>
SrsPats == <<"setup", "t0", "ta0", "tb0", "t1", "tneg", "tsame", "tgen", "other">>
Scalars == <<"rand", "zero", "one", "two", "neg", "half">>

\* --- alterations of an argument's proof
StepMuts(k, ms) == Map3(LAMBDA i, j, m : M("step", i, j, m), Range1(1, k), Range1(1, 6), ms)
RoundMs == <<"none", "dropfirst", "droplast", "duplast", "dupfirst", "swap", "swaplr",
             "addzero", "addzerofirst", "double", "many">>
RoundMuts == Map1(LAMBDA m : M("rounds", 1, 0, m), RoundMs)
BaseMuts == Map2(LAMBDA i, m : M("base", i, 0, m), <<1, 2>>, <<"add1", "zero", "neg", "rand">>)
ComMuts == Map2(LAMBDA i, m : M("com", i, 0, m), <<1, 2, 3>>, <<"add1", "zero", "neg", "dbl", "rand">>)
             \o <<M("com", 0, 0, "rand")>>
FinMuts(op) ==
  Map3(LAMBDA s, i, m : M(s, i, 0, m), <<"fck", "fpi">>, IF op = "tipa" THEN <<1, 2>> ELSE <<1>>,
       <<"add1", "zero", "neg", "rand">>)
VkMuts == Map2(LAMBDA i, m : M("vk", i, 0, m), <<1, 2, 3, 4>>, <<"add1", "neg", "rand">>)
ShiftMuts == Map1(LAMBDA m : M("shift", 0, 0, m), <<"add1", "neg", "inv", "dbl", "rand">>)
\* keys that are too long or too short
KeyLens == Map2(LAMBDA s, m : M(s, 1, 0, m), <<"cka", "ckb", "keys">>, <<"drop", "push">>)
KeyMuts(op, n) ==
  (IF op = "gipa" THEN KeyLens ELSE Map1(LAMBDA m : M("cka", 1, 0, m), <<"drop", "push">>)) \o
  Map3(LAMBDA s, i, m : M(s, i, 0, m), IF op = "gipa" THEN <<"cka", "ckb">> ELSE <<"cka">>,
       Range1(1, n), <<"add1", "zero">>)
  \o Map2(LAMBDA s, m : M(s, 1, 0, m), IF op = "gipa" THEN <<"cka", "ckb">> ELSE <<"cka">>,
          <<"rev", "swap", "all">>)
\* values that are no group elements exist for uncommitted inner products
BadMuts(op, kind, k) ==
  IF kind = "scalarp" THEN <<>>
  ELSE Map2(LAMBDA i, m : M("com", i, 0, m), <<3>>, <<"bad", "surplus">>)
       \o Map3(LAMBDA i, j, m : M("step", i, j, m), Range1(1, k), <<3, 6>>, <<"bad", "surplus">>)
ArgMuts(op, kind, n) ==
  LET k == Lg(n) IN
  ComMuts \o StepMuts(k, <<"add1", "zero", "neg">>) \o RoundMuts \o BaseMuts
  \o (IF op \in {"tipa", "tssm"} THEN FinMuts(op) \o VkMuts ELSE KeyMuts(op, n))
  \o (IF op = "tipa" THEN ShiftMuts ELSE <<>>)
  \o (IF kind = "scalarp" THEN Map1(LAMBDA m : M("ckt", 0, 0, m), <<"add1", "zero", "neg">>) ELSE <<>>)
\* at sizes where not everything can be altered: some keys, each round once
Spread(n) == [i \in 1 .. 2 * Lg(n) |-> IF i <= Lg(n) THEN 2 ^ i ELSE n - 2 ^ (2 * Lg(n) - i) + 1]
LongMuts(op, n) ==
  StepMuts(Lg(n), <<"add1">>) \o Map1(LAMBDA i : M("com", i, 0, "add1"), <<1, 2, 3>>) \o Map1(LAMBDA i : M("base", i, 0, "add1"), <<1, 2>>)
  \o (IF op \in {"tipa", "tssm"} THEN Map2(LAMBDA s, i : M(s, i, 0, "add1"), <<"fck", "fpi">>, IF op = "tipa" THEN <<1, 2>> ELSE <<1>>)
      ELSE Map2(LAMBDA s, i : M(s, i, 0, "add1"), IF op = "gipa" THEN <<"cka", "ckb">> ELSE <<"cka">>, Spread(n)))
ArgForge(op) ==
  CASE op = "gipa" -> <<"none", "none", "none", "a", "b", "t">>
    [] op = "tipa" -> <<"none", "none", "none", "honestkey", "a", "b", "t", "cka", "ckb", "ckab">>
    [] op = "ssm"  -> <<"none", "none", "none", "a", "t", "tbase", "redcom", "redbase">>
    [] op = "tssm" -> <<"none", "none", "none", "honestkey", "a", "t", "tbase", "cka", "redcom", "redbase">>

Arg(p, op, kind, n, pa, pb, pk, shift, plan) ==
  [fam |-> "arg", P |-> p, op |-> op, kind |-> kind, n |-> n, pa |-> pa, pb |-> pb, pk |-> pk,
   shift |-> shift, plan |-> plan, transport |-> 0, muts |-> <<>>, forge |-> <<>>, fprove |-> <<>>]
WithMuts(s) == [s EXCEPT !.muts = ArgMuts(s.op, s.kind, s.n), !.forge = ArgForge(s.op)]

Ns(op) == IfDeep(<<1, 2, 4, 8, 16, 32, 64>>, <<1, 2, 4, 8, 16>>)
ArgStyles == <<"twin", "l0", "r0", "same", "steps0", "anti", "a0", "b0", "ab0", "one", "com0", "eq", "fk0">>
ArgBreaks(op) ==
  CASE op = "gipa" -> <<"none", "a", "b", "t">> [] op = "tipa" -> <<"none", "a", "b", "t", "cka", "ckb">>
    [] op = "ssm" -> <<"none", "a", "t", "tbase", "redcom", "redbase">> [] op = "tssm" -> <<"none", "a", "t", "tbase", "cka", "redcom", "redbase">>
\* two equations broken at once so that their sum or difference still holds
PairsOf(eqs) == FlattenSeq([i \in 1 .. Len(eqs) |-> FlattenSeq([j \in 1 .. i - 1 |-> <<eqs[j] \o "+" \o eqs[i], eqs[j] \o "-" \o eqs[i]>>])])
ArgPairs(op) == PairsOf(CASE op = "gipa" -> <<"a", "b", "t">> [] op = "tipa" -> <<"a", "b", "t", "cka", "ckb">>
                          [] op = "ssm" -> <<"a", "t">> [] op = "tssm" -> <<"a", "t", "cka">>)
StyledForge(op) == Map2(LAMBDA b, s : b \o "/" \o s, ArgBreaks(op), ArgStyles)
ListForge == <<"none/xcom", "none/xall", "none/xsteps", "none/xleft", "none/ecom", "none/eall">>
\* honest runs of one variant
BPats(op) == IF op \in {"ssm", "tssm"} THEN Scalars ELSE Vecs
PkPats(op) == IF op \in {"tipa", "tssm"} THEN SrsPats ELSE <<"setup">> \o Vecs
ShiftsOf(op) == IF op = "tipa" THEN Shifts ELSE <<"one">>
ArgComplete(op) == FlattenSeq(Map1(LAMBDA p :
  Map3(LAMBDA kind, n, pa : Arg(p, op, kind, n, pa, "rand", "setup", "one", "rand"), KindsOf(op), Ns(op), Vecs)
  \o Map3(LAMBDA kind, n, pb : Arg(p, op, kind, n, "rand", pb, "setup", "rand", "rand"), KindsOf(op), Ns(op), BPats(op))
  \o Map3(LAMBDA kind, n, pk : Arg(p, op, kind, n, "rand", "rand", pk, "one", "rand"), KindsOf(op), Ns(op), PkPats(op))
  \o Map3(LAMBDA kind, n, pl : Arg(p, op, kind, n, "rand", "rand", "setup", "rand", pl), KindsOf(op), Ns(op), Plans)
  \o Map1(LAMBDA kind : Arg(p, op, kind, 2, "rand", "rand", "setup", "rand", "retry300"), KindsOf(op))
  \o Map4(LAMBDA kind, n, sh, pk : Arg(p, op, kind, n, "rand", "rand", pk, sh, "rand"), KindsOf(op), <<1, 2, 8>>,
          ShiftsOf(op), PkPats(op))
  \o Map2(LAMBDA kind, n : Arg(p, op, kind, n, "rand", "rand", "setup", "rand", "rand"), KindsOf(op),
          IfDeep(<<128, 256, 512, 1024, 2048>>, <<64, 256, 1024>>))
  \o Map3(LAMBDA kind, n, t : Threaded(Arg(p, op, kind, n, "rand", "rand", "setup", "rand", "rand"), t), KindsOf(op), <<2, 8, 32>>, SThreads)
  \o IF ~Deep THEN <<>> ELSE
     Map4(LAMBDA kind, n, pa, pb : Arg(p, op, kind, n, pa, pb, "setup", "rand", "rand"), KindsOf(op), <<2, 4, 8>>, Vecs, BPats(op))
     \o Map4(LAMBDA kind, n, pa, pk : Arg(p, op, kind, n, pa, "rand", pk, "rand", "retry1"), KindsOf(op), <<2, 4>>, Vecs, PkPats(op)),
  Ps))
\* altered and constructed proofs of one variant
ArgExact(op) == FlattenSeq(Map1(LAMBDA p :
  Map2(LAMBDA kind, n : WithMuts(Arg(p, op, kind, n, "rand", "rand", "setup", "rand", "rand")), KindsOf(op),
       IfDeep(<<1, 2, 4, 8, 16>>, <<1, 2, 4, 8>>))
  \o Map2(LAMBDA kind, sh : WithMuts(Arg(p, op, kind, 4, "rand", "rand", IF op \in {"tipa", "tssm"} THEN "tgen" ELSE "rand", sh, "rand")),
          KindsOf(op), ShiftsOf(op))
  \o Map3(LAMBDA kind, n, pa : WithMuts(Arg(p, op, kind, n, pa, IF op \in {"ssm", "tssm"} THEN "rand" ELSE pa, "setup", "rand", "retry1")),
          KindsOf(op), <<2, 4>>, IfDeep(Vecs, <<"zero", "onlyfirst", "alt", "halves">>))
  \o Map2(LAMBDA kind, pb : WithMuts(Arg(p, op, kind, 4, "rand", pb, "setup", "rand", "rand")), KindsOf(op),
          IfDeep(BPats(op), <<"zero", "one", "neg">>))
  \o Map3(LAMBDA kind, n, r : [Arg(p, op, kind, n, "rand", "rand", "setup", "rand", "rand")
                              EXCEPT !.forge = ArgForge(op) \o ArgForge(op), !.fprove = <<>>],
          KindsOf(op), IfDeep(<<1, 2, 4, 8, 16, 32, 64>>, <<1, 2, 4, 8, 16>>), Range1(1, IfDeep(6, 2)))
  \o Map2(LAMBDA kind, pl : WithMuts(Arg(p, op, kind, 4, "rand", "rand", "setup", "rand", pl)), KindsOf(op), IfDeep(Plans, <<"cneg">>))
  \* constructed proofs with values of special shapes
  \o Map3(LAMBDA kind, n, pb : [Arg(p, op, kind, n, "rand", pb, "setup", "rand", "rand") EXCEPT !.forge = StyledForge(op) \o ArgPairs(op)],
          KindsOf(op), IfDeep(<<1, 2, 4, 8, 16, 32>>, <<1, 2, 4, 8>>), IF op \in {"ssm", "tssm"} THEN <<"rand", "zero", "one">> ELSE <<"rand">>)
  \o Map2(LAMBDA kind, n : [Arg(p, op, kind, n, "rand", "rand", "setup", "rand", "rand") EXCEPT
             !.forge = StyledForge(op), !.muts = ComMuts \o StepMuts(Lg(n), <<"add1">>) \o BaseMuts \o RoundMuts],
          KindsOf(op), IfDeep(<<32, 64, 128>>, <<32>>))
  \o Map2(LAMBDA kind, n : [Arg(p, op, kind, n, "rand", "rand", "setup", "rand", "rand") EXCEPT
             !.forge = ArgForge(op), !.muts = LongMuts(op, n)], KindsOf(op), IfDeep(<<64, 128, 256, 512, 1024>>, <<64, 256>>))
  \* inner products that are committed as themselves, but are lists of another length
  \o Map3(LAMBDA kind, n, pb : [Arg(p, op, kind, n, "rand", pb, "setup", "rand", "rand") EXCEPT !.forge = ListForge],
          SelectSeq(KindsOf(op), LAMBDA k : k # "scalarp"), IfDeep(<<1, 2, 4, 8, 16, 32>>, <<1, 2, 4, 8>>), <<"rand", "zero">>),
  Ps))
ArgMalformed(op) == FlattenSeq(Map1(LAMBDA p :
  Map3(LAMBDA kind, n, pa : [Arg(p, op, kind, n, pa, "rand", "setup", "rand", "rand") EXCEPT
         !.muts = RoundMuts \o BadMuts(op, kind, Lg(n)) \o (IF op = "gipa" THEN KeyLens ELSE IF op = "ssm" THEN
                   Map1(LAMBDA m : M("cka", 1, 0, m), <<"drop", "push">>) ELSE <<>>)
                  \o BaseMuts \o Map1(LAMBDA i : M("com", i, 0, "zero"), <<1, 2, 3>>),
         !.forge = <<"none">>], KindsOf(op), IfDeep(<<1, 2, 4, 8, 16, 32>>, <<1, 2, 4, 8>>), <<"rand", "zero">>),
  Ps))
\* false statements for the checking prover
FMuts(n) ==
  Map1(LAMBDA m : M("t", 0, 0, m), <<"add1", "zero", "neg", "dbl", "rand">>)
  \o Map2(LAMBDA i, m : M("com", i, 0, m), <<1, 2, 3>>, <<"add1", "zero", "neg", "rand">>)
  \o Map3(LAMBDA s, i, m : M(s, i, 0, m), <<"ma", "mb", "cka", "ckb">>, Range1(1, n), <<"add1", "zero">>)
  \o Map2(LAMBDA s, m : M(s, 1, 0, m), <<"ma", "mb", "cka", "ckb", "msgs", "keys">>, <<"drop", "push", "swap", "rev">>)
  \o Map1(LAMBDA k : M("len", k, 0, "rand"), <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24>>)
  \o Map1(LAMBDA i : M("adjust", i, 0, "rand"), Range1(1, n))
  \* another claimed product together with a commitment to it
  \o Map1(LAMBDA m : M("tcom", 0, 0, m), <<"add1", "zero", "neg", "dbl", "rand">>)
  \o <<M("ckt", 0, 0, "add1")>>
Refusal == FlattenSeq(Map1(LAMBDA p :
  Map3(LAMBDA kind, n, pa : [Arg(p, "gipa", kind, n, pa, pa, "setup", "one", "rand") EXCEPT !.fprove = FMuts(n)],
       GipaKinds, IfDeep(<<1, 2, 4, 8, 16, 32>>, <<1, 2, 4, 8>>), IfDeep(Vecs, <<"rand", "zero", "onlylast", "rep">>))
  \o Map2(LAMBDA kind, n : [Arg(p, "gipa", kind, n, "rand", "rand", "setup", "one", "rand") EXCEPT !.fprove = FMuts(n)],
       GipaKinds, IfDeep(<<64, 128>>, <<16, 32>>))
  \o Map2(LAMBDA kind, pk : [Arg(p, "gipa", kind, 4, "rand", "rand", pk, "one", "rand") EXCEPT !.fprove = FMuts(4)],
       GipaKinds, IfDeep(Vecs, <<"zero", "onlyfirst", "rep">>)),
  Ps))

----------------------------------------------------------------------------
SippS(p, n, pa, pb, pr, extra, plan) ==
  [fam |-> "sipp", P |-> p, n |-> n, pa |-> pa, pb |-> pb, pr |-> pr, extra |-> extra, plan |-> plan,
   muts |-> <<>>, forge |-> <<>>]
SippMuts(n) ==
  Map3(LAMBDA s, i, m : M(s, i, 0, m), <<"a", "b", "r">>, Range1(1, n), <<"add1", "zero", "neg">>)
  \o Map2(LAMBDA s, m : M(s, 1, 0, m), <<"a", "b", "r">>, <<"swap", "rev", "all">>)
  \o Map1(LAMBDA m : M("value", 0, 0, m), <<"add1", "zero", "neg", "dbl", "rand">>)
  \o Map3(LAMBDA i, j, m : M("gt", i, j, m), Range1(1, Lg(n)), <<1, 2>>, <<"add1", "zero", "neg">>)
  \o Map1(LAMBDA m : M("rounds", 0, 0, m), <<"swap", "swaplr">>)
SippRounds == Map1(LAMBDA m : M("rounds", 0, 0, m),
                   <<"none", "droplast", "dropfirst", "addzero", "duplast", "swap", "swaplr">>)
SippNs == IfDeep(<<2, 4, 8, 16, 32, 64, 128>>, <<2, 4, 8, 16, 32>>)
SippComplete == FlattenSeq(Map1(LAMBDA p :
  Map2(LAMBDA n, pa : SippS(p, n, pa, "rand", "rand", 0, "rand"), SippNs, Vecs)
  \o Map2(LAMBDA n, pb : SippS(p, n, "rand", pb, "rand", 0, "rand"), SippNs, Vecs)
  \o Map2(LAMBDA n, pr : SippS(p, n, "rand", "rand", pr, 0, "rand"), SippNs, Vecs)
  \o Map3(LAMBDA n, pa, pb : SippS(p, n, pa, pb, "rand", 0, "rand"), <<2, 4>>, Vecs, Vecs)
  \o Map2(LAMBDA n, x : SippS(p, n, "rand", "rand", "rand", x, "rand"), SippNs, <<1, 3>>)
  \o Map1(LAMBDA n : SippS(p, n, "rand", "rand", "rand", 0, "rand"), IfDeep(<<256, 512, 1024, 2048>>, <<64, 256, 1024>>))
  \o Map2(LAMBDA n, t : Threaded(SippS(p, n, "rand", "rand", "rand", 0, "rand"), t), <<2, 8, 32>>, SThreads)
  \o IF ~Deep THEN <<>> ELSE
     Map4(LAMBDA n, pa, pb, pr : SippS(p, n, pa, pb, pr, 0, "rand"), <<2, 4>>, Vecs, Vecs, Vecs), Ps))
SippExact == FlattenSeq(Map1(LAMBDA p :
  Map2(LAMBDA n, pa : [SippS(p, n, pa, "rand", "rand", 0, "rand") EXCEPT !.muts = SippMuts(n),
                          !.forge = <<"none", "none", "none", "none", "a", "a">>],
       IfDeep(<<2, 4, 8, 16, 32>>, <<2, 4, 8, 16>>), IfDeep(Vecs, <<"rand", "sparse", "halves">>))
  \o Map2(LAMBDA n, pb : [SippS(p, n, "rand", pb, "rand", 0, "rand") EXCEPT !.muts = SippMuts(n)],
       <<2, 8>>, IfDeep(Vecs, <<"zero", "alt">>))
  \o Map2(LAMBDA n, pr : [SippS(p, n, "rand", "rand", pr, 1, "rand") EXCEPT !.muts = SippMuts(n)],
       <<2, 8>>, IfDeep(Vecs, <<"one", "first0">>))
  \o Map1(LAMBDA n : [SippS(p, n, "rand", "rand", "rand", 0, "rand") EXCEPT
         !.muts = Map2(LAMBDA s, i : M(s, i, 0, "add1"), <<"a", "b", "r">>, IF n <= 64 THEN Range1(1, n) ELSE Spread(n))
                  \o Map2(LAMBDA i, j : M("gt", i, j, "add1"), Range1(1, Lg(n)), <<1, 2>>) \o <<M("value", 0, 0, "add1")>>,
         !.forge = <<"none", "a">>], IfDeep(<<64, 128, 256, 512, 1024>>, <<64, 256, 1024>>)), Ps))
SippStyles == <<"", "/twin", "/l0", "/r0", "/steps0", "/anti", "/com0">>
SippSpecial == FlattenSeq(Map1(LAMBDA p :
  Map4(LAMBDA n, pa, pb, pr : [SippS(p, n, pa, pb, pr, 0, "rand") EXCEPT !.muts = SippRounds \o Map1(LAMBDA m : M("value", 0, 0, m), <<"add1", "zero">>)
                                        \o Map3(LAMBDA i, j, m : M("gt", i, j, m), Range1(1, Lg(n)), <<1, 2>>, <<"add1", "zero">>),
                                  !.forge = Map2(LAMBDA b, s : b \o s, <<"none", "a">>, SippStyles)],
       IfDeep(<<2, 4, 8, 16, 32, 64>>, <<2, 4, 16, 32>>), <<"rand", "zero", "rep", "onlylast">>, <<"rand", "zero", "rep">>, <<"rand", "one", "rep">>), Ps))
SippMal == FlattenSeq(Map1(LAMBDA p :
  Map2(LAMBDA n, pa : [SippS(p, n, pa, "rand", "rand", 0, "rand") EXCEPT !.muts = SippRounds],
       SippNs, <<"rand", "zero", "one">>), Ps))

----------------------------------------------------------------------------
Uni(p, op, deg, flen, pat, points, plan) ==
  [fam |-> "poly", P |-> p, op |-> op, uni |-> 1, deg |-> deg, xd |-> 0, yd |-> 0, pf |-> pat, flen |-> flen,
   rows |-> 0, ragged |-> 0, commitonly |-> 0, points |-> points, plan |-> plan, muts |-> <<>>, forge |-> <<>>]
Bi(p, op, xd, yd, rows, flen, ragged, pat, points, plan) ==
  [fam |-> "poly", P |-> p, op |-> op, uni |-> 0, deg |-> 0, xd |-> xd, yd |-> yd, pf |-> pat, flen |-> flen,
   rows |-> rows, ragged |-> ragged, commitonly |-> 0, points |-> points, plan |-> plan, muts |-> <<>>, forge |-> <<>>]
APoint == << <<"rand", "rand">> >>
Points == Map2(LAMBDA x, y : <<x, y>>, <<"rand", "zero", "one", "neg">>, <<"rand", "zero", "two">>)
UPoints == Map1(LAMBDA x : <<x>>, Scalars)
FPats == <<"rand", "zero", "one", "onlyfirst", "onlylast", "sparse", "tail0", "alt">>
\* row lengths of a bivariate polynomial need a power of two of second-tier keys
XDegs == <<0, 1, 3, 7>>
YDegs(op) == IF op = "npc" THEN <<0, 1, 3, 7>> ELSE <<0, 1, 2, 3, 5, 8>>
PolyComplete(op) == FlattenSeq(Map1(LAMBDA p :
  FlattenSeq(Map1(LAMBDA deg :
     Map1(LAMBDA flen : Uni(p, op, deg, flen, "rand", UPoints, "rand"),
          IF deg <= 6 \/ Deep THEN Range1(0, deg + 1) ELSE <<0, 1, deg \div 2, deg, deg + 1>>),
     Range1(0, IfDeep(36, 18)) \o IfDeep(<<63, 64, 65, 100, 127, 255>>, <<31, 32, 63, 64>>)))
  \o Map1(LAMBDA deg : Uni(p, op, deg, deg + 1, "rand", APoint, "rand"),
          <<100, 255, 256, 500, 960, 961, 1000, 1023, 1024, 2000>> \o IfDeep(<<3000, 4095, 4096>>, <<>>))
  \o Map2(LAMBDA deg, t : Threaded(Uni(p, op, deg, deg + 1, "rand", APoint, "rand"), t), <<7, 40>>, SThreads)
  \o Map2(LAMBDA deg, pat : Uni(p, op, deg, deg + 1, pat, UPoints, "rand"), <<1, 3, 4, 7, 15>>, FPats)
  \o Map2(LAMBDA deg, pl : Uni(p, op, deg, deg + 1, "rand", APoint, pl), <<1, 3, 6, 15>>, Plans)
  \o FlattenSeq(Map2(LAMBDA xd, yd :
       Map2(LAMBDA rows, flen : Bi(p, op, xd, yd, rows, flen, 0, "rand", APoint, "rand"),
            Range1(IF Deep THEN 0 ELSE 1, xd + 1), IF yd <= 3 THEN Range1(0, yd + 1) ELSE <<0, 1, yd, yd + 1>>), XDegs, YDegs(op)))
  \o Map3(LAMBDA xd, yd, pat : Bi(p, op, xd, yd, xd + 1, yd + 1, 1, pat, Points, "rand"), XDegs, YDegs(op), FPats)
  \o Map2(LAMBDA xd, yd : Bi(p, op, xd, yd, xd + 1, yd + 1, 0, "rand", APoint, "rand"), IfDeep(<<15, 31, 63, 127>>, <<15, 31>>),
          IfDeep(<<0, 1, 3, 15, 31>>, <<1, 15>>))
  \o Map2(LAMBDA xd, yd : Bi(p, op, xd, yd, xd + 1, yd + 1, 0, "rand", APoint, "rand"), <<1, 3>>, IfDeep(<<15, 31, 63, 127, 255>>, <<15, 31>>))
  \o Map2(LAMBDA xd, pl : Bi(p, op, xd, 3, xd + 1, 4, 0, "rand", APoint, pl), XDegs, Plans), Ps))
PStep(part, k) == Map3(LAMBDA i, j, m : MP(part, "step", i, j, m), Range1(1, k), Range1(1, 6), <<"add1", "zero">>)
PRounds(part) == Map1(LAMBDA m : MP(part, "rounds", 1, 0, m), RoundMs)
PBase(part) == Map2(LAMBDA i, m : MP(part, "base", i, 0, m), <<1, 2>>, <<"add1", "zero", "neg">>)
PBad(part, k) == Map3(LAMBDA i, j, m : MP(part, "step", i, j, m), Range1(1, k), <<3, 6>>, <<"bad", "surplus">>)
PolyMuts(op) ==
  Map2(LAMBDA s, m : MP("", s, 0, 0, m), <<"com", "eval", "yc">>, <<"add1", "zero", "neg", "dbl", "rand">>)
  \o Map2(LAMBDA i, m : MP("", "point", i, 0, m), <<1, 2>>, <<"add1", "zero", "neg", "inv", "rand">>)
  \o PStep("", 2) \o PRounds("") \o PBase("")
  \o (IF op = "tpc" THEN
        Map1(LAMBDA m : MP("", "kp", 0, 0, m), <<"add1", "zero", "neg", "rand">>)
        \o Map2(LAMBDA i, m : MP("", "vk", i, 0, m), <<1, 2, 3, 4>>, <<"add1", "neg", "rand">>)
        \o Map2(LAMBDA s, m : MP("", s, 1, 0, m), <<"fck", "fpi">>, <<"add1", "zero", "neg", "rand">>)
      ELSE
        Map3(LAMBDA s, i, m : MP("", s, i, 0, m), <<"xk", "yk">>, <<1, 2, 3, 4>>, <<"add1", "zero">>)
        \o Map2(LAMBDA s, m : MP("", s, 1, 0, m), <<"xk", "yk">>, <<"swap", "rev">>)
        \o PStep("low", 3) \o PRounds("low") \o PBase("low"))
PolyLongMuts(op, kx, ky) ==
  Map1(LAMBDA s : MP("", s, 0, 0, "add1"), <<"com", "eval", "yc">>) \o Map1(LAMBDA i : MP("", "point", i, 0, "add1"), <<1, 2>>)
  \o Map2(LAMBDA i, j : MP("", "step", i, j, "add1"), Range1(1, kx), Range1(1, 6))
  \o (IF op = "tpc" THEN <<MP("", "kp", 0, 0, "add1"), MP("", "fck", 1, 0, "add1"), MP("", "fpi", 1, 0, "add1")>>
      ELSE Map2(LAMBDA s, i : MP("", s, i, 0, "add1"), <<"xk", "yk">>, <<1, 2, 3, 4, 5, 7, 8>>)
           \o Map2(LAMBDA i, j : MP("low", "step", i, j, "add1"), Range1(1, ky), Range1(1, 6)))
PolyForge(op) ==
  IF op = "tpc" THEN <<"none", "none", "none", "top.a", "top.t", "top.tbase", "top.cka", "top.redcom", "top.redbase", "top.honestkey", "kp", "eval">>
  ELSE <<"none", "none", "none", "top.a", "top.t", "top.tbase", "top.redcom", "top.redbase", "low.a", "low.t", "low.tbase", "low.redcom", "low.redbase">>
PolyExact(op) == FlattenSeq(Map1(LAMBDA p :
  Map2(LAMBDA deg, pl : [Uni(p, op, deg, deg + 1, "rand", APoint, pl) EXCEPT !.muts = PolyMuts(op), !.forge = PolyForge(op)],
       IfDeep(<<1, 2, 3, 4, 5, 7, 12, 15, 16, 31>>, <<1, 3, 5, 15>>), <<"rand", "retry1">>)
  \o Map3(LAMBDA xd, yd, px : [Bi(p, op, xd, yd, xd + 1, yd + 1, 0, "rand", << <<px, "rand">> >>, "rand")
                              EXCEPT !.muts = PolyMuts(op), !.forge = PolyForge(op)],
       <<1, 3, 7>>, IfDeep(YDegs(op), <<1, 3>>), IfDeep(Scalars, <<"rand", "zero", "one">>))
  \o Map2(LAMBDA xd, pat : [Bi(p, op, xd, 3, xd + 1, 4, 1, pat, APoint, "rand")
                              EXCEPT !.muts = PolyMuts(op), !.forge = PolyForge(op)],
       <<1, 3>>, IfDeep(FPats, <<"zero", "onlyfirst", "sparse">>))
  \o Map2(LAMBDA deg, py : [Uni(p, op, deg, deg + 1, "rand", << <<py>> >>, "rand") EXCEPT !.muts = PolyMuts(op), !.forge = PolyForge(op)],
       <<3, 7>>, <<"zero", "one", "neg">>)
  \* the same point and polynomial in both coordinates
  \o Map1(LAMBDA py : [Bi(p, op, 3, 3, 4, 4, 0, "rand", << <<py, py>> >>, "rand") EXCEPT !.muts = PolyMuts(op)], <<"zero", "one", "two">>)
  \o Map1(LAMBDA xd : [Bi(p, op, xd, 0, xd + 1, 1, 0, "rand", APoint, "rand") EXCEPT !.muts = PolyMuts(op)], <<0, 1>>)
  \* higher degrees
  \o Map1(LAMBDA deg : [Uni(p, op, deg, deg + 1, "rand", APoint, "rand") EXCEPT !.muts = PolyLongMuts(op, 3, 4), !.forge = PolyForge(op)],
          IfDeep(<<63, 100, 255, 1000>>, <<63, 255>>))
  \o Map1(LAMBDA xd : [Bi(p, op, xd, 15, xd + 1, 16, 0, "rand", APoint, "rand") EXCEPT !.muts = PolyLongMuts(op, Lg(xd + 1), 4), !.forge = PolyForge(op)],
          IfDeep(<<15, 31, 63>>, <<15, 31>>)), Ps))
PolyPairs(op) == PairsOf(IF op = "tpc" THEN <<"top.a", "top.t", "top.tbase", "top.cka", "kp">> ELSE <<"top.a", "top.t", "low.a", "low.t">>)
PolyZero == <<"com0:", "yc0:", "eval0:", "all0:">>
PolyStyled(op) == FlattenSeq(Map1(LAMBDA p :
  Map1(LAMBDA deg : [Uni(p, op, deg, deg + 1, "rand", APoint, "rand") EXCEPT !.forge = PolyPairs(op) \o Map2(LAMBDA z, b : z \o b, PolyZero, PolyForge(op))],
       IfDeep(<<1, 2, 3, 5, 7, 12, 15, 31>>, <<1, 3, 12>>))
  \o Map2(LAMBDA xd, yd : [Bi(p, op, xd, yd, xd + 1, yd + 1, 0, "rand", << <<"rand", "rand">>, <<"zero", "rand">>, <<"rand", "zero">> >>, "rand")
              EXCEPT !.forge = Map2(LAMBDA z, b : z \o b, PolyZero, PolyForge(op))], <<1, 3>>, <<1, 3>>)
  \o Map2(LAMBDA xd, st : [Bi(p, op, xd, 3, xd + 1, 4, 0, "rand", APoint, "rand")
              EXCEPT !.forge = Map1(LAMBDA b : b \o "/" \o st,
                                    SelectSeq(PolyForge(op), LAMBDA b : b \notin {"none", "kp", "eval"}) \o <<"top.none">>
                                    \o (IF op = "npc" THEN <<"low.none">> ELSE <<>>))], <<1, 3>>, ArgStyles), Ps))
PolyMal(op) == FlattenSeq(Map1(LAMBDA p :
  Map2(LAMBDA xd, pat : [Bi(p, op, xd, 3, xd + 1, 4, 0, pat, APoint, "rand") EXCEPT
       !.muts = PRounds("") \o PBad("", Lg(xd + 1)) \o
                (IF op = "npc" THEN PRounds("low") \o PBad("low", 2)
                                    \o Map2(LAMBDA s, m : MP("", s, 1, 0, m), <<"xk", "yk">>, <<"drop", "push">>) ELSE <<>>)],
       XDegs, <<"rand", "zero">>)
  \o Map1(LAMBDA deg : [Uni(p, op, deg, deg + 1, "rand", APoint, "rand") EXCEPT !.muts = PRounds("") \o PRounds("low")],
          <<0, 1, 4, 8, 15>>), Ps))
\* every degree, polynomials that fit and that do not
CommitOnly(s) == [s EXCEPT !.commitonly = 1]
SetupOnly(s) == [s EXCEPT !.commitonly = 2]
PolyServe(op) == FlattenSeq(Map1(LAMBDA p :
  FlattenSeq(Map1(LAMBDA deg :
     Map2(LAMBDA flen, pat : CommitOnly(Uni(p, op, deg, flen, pat, APoint, "rand")),
          <<0, 1>> \o (IF deg > 2 THEN <<deg - 1>> ELSE <<>>) \o <<deg, deg + 1, deg + 2, deg + 3, 2 * deg + 3, 3 * deg + 8>>,
          <<"rand", "onlylast">>),
     Range1(0, IfDeep(70, 34)) \o <<48, 63, 64, 65, 80, 99, 100, 255, 256>> \o IfDeep(<<127, 128, 129, 200, 257, 400>>, <<>>)))
  \o Map2(LAMBDA deg, flen : CommitOnly(Uni(p, op, deg, flen, "rand", APoint, "rand")),
          <<400, 511, 512, 960, 961, 1000, 1022, 1023, 1024, 1025, 1500, 2047, 2048>> \o IfDeep(<<3000, 4095, 4096, 5000>>, <<>>), <<1, 300, 5100>>)
  \o Map1(LAMBDA deg : CommitOnly(Uni(p, op, deg, deg + 1, "rand", APoint, "rand")),
          <<400, 511, 512, 960, 961, 1000, 1022, 1023, 1024, 1025, 1500, 2047, 2048>> \o IfDeep(<<3000, 4095, 4096, 5000>>, <<>>))
  \* very large degrees: only the setup (the keys are square roots of these)
  \o Map1(LAMBDA deg : SetupOnly(Uni(p, op, deg, 0, "rand", APoint, "rand")),
          <<16383, 16384, 65535, 65536, 100000, 262144, 1048575, 1048576, 2097152, 16777215, 16777216>>
          \o IfDeep(<<4194304, 16777217, 16785407, 16785408, 67108864, 67108865, 268435456>>, <<>>))
  \o FlattenSeq(Map2(LAMBDA xd, yd :
       Map3(LAMBDA rows, flen, pat : CommitOnly(Bi(p, op, xd, yd, rows, flen, 0, pat, APoint, "rand")),
            <<1, xd + 1, xd + 2, xd + 3>>, <<0, 1, yd, yd + 1, yd + 2, yd + 4>>, <<"rand", "onlylast">>),
       IfDeep(<<0, 1, 3, 7, 15>>, <<0, 1, 3>>), IfDeep(<<0, 1, 2, 3, 4, 5, 6, 7, 8>>, <<0, 1, 3, 4>>)))
  \o FlattenSeq(Map1(LAMBDA xd :
       Map2(LAMBDA rows, pat : CommitOnly(Bi(p, op, xd, 3, rows, 4, 1, pat, APoint, "rand")),
            <<xd + 1, xd + 2>>, FPats), <<1, 3, 7>>)), Ps))

Kzg(p, deg, flen, pat, points, muts) ==
  [fam |-> "kzg", P |-> p, deg |-> deg, flen |-> flen, pf |-> pat, points |-> points, muts |-> muts]
KzgMuts ==
  Map2(LAMBDA s, m : M(s, 0, 0, m), <<"com", "point", "eval", "pi">>, <<"add1", "zero", "neg", "dbl", "rand">>)
  \o Map2(LAMBDA i, m : M("vk", i, 0, m), <<1, 2, 3, 4>>, <<"add1", "neg", "zero", "rand">>)
  \o <<M("solve", 0, 0, "x"), M("solve", 0, 0, "x"), M("solve", 0, 0, "x"), M("none", 0, 0, "x")>>
KzgPoints == Scalars \o <<"trapdoor">>
KzgAll == FlattenSeq(Map1(LAMBDA p :
  FlattenSeq(Map1(LAMBDA deg : Map1(LAMBDA flen : Kzg(p, deg, flen, "rand", KzgPoints, <<>>), Range1(0, deg + 3)),
             Range1(0, IfDeep(24, 10))))
  \o FlattenSeq(Map1(LAMBDA deg : Map1(LAMBDA flen : Kzg(p, deg, flen, "rand", <<"rand", "one">>, <<>>), <<deg - 1, deg, deg + 1, deg + 2>>),
                     Range1(11, IfDeep(140, 66))))
  \o Map2(LAMBDA deg, pat : Kzg(p, deg, deg + 1, pat, KzgPoints, KzgMuts), <<0, 1, 2, 3, 8>>, FPats)
  \o Map1(LAMBDA deg : Kzg(p, deg, deg + 1, "rand", KzgPoints, KzgMuts), <<15, 31, 64, 100, 255, 256>>)
  \o Map2(LAMBDA deg, flen : Kzg(p, deg, flen, "rand", KzgPoints, KzgMuts), <<63, 100>>, <<0, 1, 2, 32, 64, 65, 102>>), Ps))

----------------------------------------------------------------------------
Agg(p, n, nin, pi, pp, pk, plan) ==
  [fam |-> "agg", P |-> p, n |-> n, nin |-> nin, pi |-> pi, pp |-> pp, pk |-> pk, plan |-> plan, pv |-> "rand",
   badpf |-> <<>>, muts |-> <<>>, forge |-> <<>>, adaptive |-> 0]
\* shapes of the Groth16 key: identity and repeated elements at every place
GrothKeys(nin) ==
  <<"alpha0", "beta0", "gamma0", "unit", "gd", "bd", "anti", "alpha0+gamma0", "alpha0+beta0+gamma0", "abc:zero+alpha0">>
  \o Map1(LAMBDA i : "abc0:" \o ToString(i), Range1(0, nin))
  \o Map1(LAMBDA i : "abcrep:" \o ToString(i), Range1(0, nin))
  \o Map1(LAMBDA v : "abc:" \o v, Tail(Vecs))
WithKey(a, pv) == [a EXCEPT !.pv = pv]
AggComplete == FlattenSeq(Map1(LAMBDA p :
  Map3(LAMBDA n, nin, pi : Agg(p, n, nin, pi, "rand", "setup", "rand"), IfDeep(<<1, 2, 4, 8, 16, 32, 64>>, <<1, 2, 4, 8, 16>>),
       <<0, 1, 2, 3, 5>>, <<"rand", "zero", "same", "onlylast", "neg">>)
  \o Map2(LAMBDA n, pp : Agg(p, n, 2, "rand", pp, "setup", "rand"), <<1, 2, 4, 8>>, <<"zeroa", "zerob", "zeroc", "zero", "same", "twin">>)
  \o FlattenSeq(Map1(LAMBDA nin : Map2(LAMBDA n, pv : WithKey(Agg(p, n, nin, "rand", "rand", "setup", "rand"), pv), IfDeep(<<1, 2, 4, 8>>, <<1, 4>>), GrothKeys(nin)),
                     IfDeep(<<1, 2, 3, 4, 6>>, <<1, 3, 4>>)))
  \o Map2(LAMBDA n, pi : Agg(p, n, 5, pi, "rand", "setup", "rand"), <<1, 2, 8>>, Tail(Vecs))
  \o Map2(LAMBDA n, pk : Agg(p, n, 2, "rand", "rand", pk, "rand"), <<1, 2, 4, 8>>, SrsPats)
  \o Map2(LAMBDA n, pl : Agg(p, n, 2, "rand", "rand", "setup", pl), <<1, 2, 4, 8>>, Plans)
  \o Map2(LAMBDA n, nin : Agg(p, n, nin, "rand", "rand", "setup", "rand"), <<1, 2, 4>>, <<31, 32, 33, 64, 65, 100, 130>> \o IfDeep(<<255, 256, 257, 300>>, <<>>))
  \o Map2(LAMBDA n, nin : Agg(p, n, nin, "rand", "rand", "setup", "rand"), IfDeep(<<2, 32, 64, 128, 256>>, <<2, 32, 128>>), <<1, 8, 17>>)
  \o Map2(LAMBDA n, t : Threaded(Agg(p, n, 3, "rand", "rand", "setup", "rand"), t), <<2, 8>>, SThreads), Ps))
AggMuts(n, nin) ==
  Map3(LAMBDA i, j, m : MP("", "input", i, j, m), Range1(1, n), Range1(1, nin), <<"add1", "zero">>)
  \o Map2(LAMBDA i, m : MP("", "len", i, 0, m), Range1(1, n), <<"drop", "push">>)
  \o Map1(LAMBDA m : MP("", "alllen", 0, 0, m), <<"drop", "push">>)
  \o Map1(LAMBDA m : MP("", "batch", 1, 0, m), <<"drop", "dropfirst", "empty", "dup", "rev", "swap", "same">>)
  \o Map1(LAMBDA i : MP("", "batch", i, 0, "swap"), Range1(1, n))
  \o Map2(LAMBDA i, m : MP("", "gvk", i, 0, m), <<1, 2, 3, 4>>, <<"add1", "neg", "rand">>)
  \o Map2(LAMBDA j, m : MP("", "gvk", 5, j, m), Range1(1, nin + 1), <<"add1", "zero">>)
  \o Map1(LAMBDA m : MP("", "gvk", 5, 1, m), <<"drop", "push", "swap">>)
  \o Map2(LAMBDA i, m : MP("", "com", i, 0, m), <<1, 2, 3, 4>>, <<"add1", "zero", "neg", "rand">>)
  \o Map1(LAMBDA m : MP("", "aggc", 0, 0, m), <<"add1", "zero", "neg", "rand">>)
  \o <<MP("", "pair", 0, 0, "x")>>
  \o Map2(LAMBDA i, m : MP("", "vk", i, 0, m), <<1, 2, 3, 4>>, <<"add1", "neg">>)
  \o Map4(LAMBDA part, i, j, m : MP(part, "step", i, j, m), <<"ab", "c">>, Range1(1, Lg(n)), Range1(1, 6), <<"add1", "zero">>)
  \o Map3(LAMBDA part, i, m : MP(part, "base", i, 0, m), <<"ab", "c">>, <<1, 2>>, <<"add1", "zero">>)
  \o Map4(LAMBDA part, s, i, m : MP(part, s, i, 0, m), <<"ab", "c">>, <<"fck", "fpi">>, <<1, 2>>, <<"add1", "zero">>)
  \o Map2(LAMBDA part, m : MP(part, "rounds", 1, 0, m), <<"ab", "c">>, RoundMs)
AggLongMuts(n, nin) ==
  Map2(LAMBDA i, j : MP("", "input", i, j, "add1"), Range1(1, n), IF n > 8 THEN <<1 + (n % nin)>> ELSE Range1(1, nin))
  \o Map1(LAMBDA i : MP("", "len", i, 0, "push"), Range1(1, n)) \o Map1(LAMBDA i : MP("", "batch", i, 0, "swap"), Range1(1, n))
  \o Map1(LAMBDA j : MP("", "gvk", 5, j, "add1"), Range1(1, nin + 1)) \o Map1(LAMBDA i : MP("", "gvk", i, 0, "add1"), <<1, 2, 3, 4>>)
  \o Map3(LAMBDA part, i, j : MP(part, "step", i, j, "add1"), <<"ab", "c">>, Range1(1, Lg(n)), Range1(1, 6))
AggForge == <<"none", "none", "ppe", "ab.a", "ab.b", "ab.t", "ab.cka", "ab.ckb", "ab.honestkey",
              "c.a", "c.t", "c.tbase", "c.cka", "c.redcom", "c.redbase", "c.honestkey">>
AggPairs == PairsOf(<<"ppe", "ab.a", "ab.b", "ab.t", "ab.cka", "ab.ckb", "c.a", "c.t", "c.cka">>)
BadPf(i, j, m) == [i |-> i, j |-> j, m |-> m]
BadOne(n) == Map3(LAMBDA i, j, m : <<BadPf(i, j, m)>>, Range1(1, n), <<1, 2, 3>>, <<"add1", "zero", "rand">>)
BadTwo(n) == Map2(LAMBDA i, j : <<BadPf(i, 3, "add1"), BadPf(j, 3, "sub1")>>, Range1(1, n), Range1(1, n))
AggExact == FlattenSeq(Map1(LAMBDA p :
  Map2(LAMBDA n, nin : [Agg(p, n, nin, "rand", "rand", "setup", "rand") EXCEPT !.muts = AggMuts(n, nin),
                         !.forge = AggForge, !.adaptive = IF p = BIG THEN 1 ELSE 0], IfDeep(<<1, 2, 4, 8, 16>>, <<1, 2, 4>>), <<0, 1, 3>>)
  \o Map1(LAMBDA pk : [Agg(p, 4, 2, "rand", "rand", pk, "retry1") EXCEPT !.muts = AggMuts(4, 2), !.forge = AggForge],
          IfDeep(SrsPats, <<"tgen">>))
  \o Map1(LAMBDA pi : [Agg(p, 4, 2, pi, "rand", "setup", "rand") EXCEPT !.muts = AggMuts(4, 2)], <<"zero", "same">>)
  \o Map1(LAMBDA pv : [WithKey(Agg(p, 2, 2, "rand", "rand", "setup", "rand"), pv) EXCEPT !.muts = AggMuts(2, 2), !.forge = AggForge],
          GrothKeys(2))
  \o Map2(LAMBDA pp, pi : [Agg(p, 2, 3, pi, pp, "setup", "rand") EXCEPT !.muts = AggMuts(2, 3)],
          <<"zeroc", "zeroa", "zerob", "twin">>, IfDeep(Vecs, <<"rand", "sparse">>))
  \o FlattenSeq(Map1(LAMBDA n : Map1(LAMBDA b : [Agg(p, n, 1, "rand", "rand", "setup", "rand") EXCEPT !.badpf = b], BadOne(n) \o BadTwo(n)),
                     IfDeep(<<1, 2, 4, 8>>, <<1, 2, 4>>)))
  \o FlattenSeq(Map1(LAMBDA pp : Map1(LAMBDA b : [Agg(p, 2, 1, "rand", pp, "setup", "rand") EXCEPT !.badpf = b], BadOne(2)),
                     <<"same", "zero">>))
  \* many proofs, many inputs
  \o Map1(LAMBDA n : [Agg(p, n, 2, "rand", "rand", "setup", "rand") EXCEPT !.muts = AggLongMuts(n, 2), !.forge = <<"none", "ppe", "ab.t", "c.t">>],
          IfDeep(<<8, 16, 32, 64>>, <<8, 16, 32>>))
  \o Map2(LAMBDA n, nin : [Agg(p, n, nin, "rand", "rand", "setup", "rand") EXCEPT !.muts = AggLongMuts(n, nin)],
          <<1, 4>>, IfDeep(Range1(4, 20) \o <<31, 32, 33>>, <<4, 5, 6, 7, 8, 9, 16, 17, 33>>))
  \o FlattenSeq(Map1(LAMBDA n : Map1(LAMBDA i : [Agg(p, n, 1, "rand", "rand", "setup", "rand") EXCEPT !.badpf = <<BadPf(i, 1 + (i % 3), "add1")>>],
                     Range1(1, n)), IfDeep(<<8, 16, 32>>, <<8, 16>>))), Ps))
AggStyled == FlattenSeq(Map1(LAMBDA p :
  Map2(LAMBDA n, nin : [Agg(p, n, nin, "rand", "rand", "setup", "rand") EXCEPT
         !.forge = AggPairs \o Map2(LAMBDA z, b : z \o b, <<"com0:", "aggc0:", "all0:", "eqcom:">>, AggForge)
                   \o Map2(LAMBDA b, st : b \o "/" \o st, SelectSeq(AggForge, LAMBDA b : b \notin {"none", "ppe"}) \o <<"ab.none", "c.none">>, ArgStyles)],
       IfDeep(<<2, 4, 8, 16>>, <<2, 4, 8>>), <<0, 2>>), Ps))
AggMal == FlattenSeq(Map1(LAMBDA p :
  Map2(LAMBDA n, nin : [Agg(p, n, nin, "rand", "rand", "setup", "rand") EXCEPT
       !.muts = Map2(LAMBDA part, m : MP(part, "rounds", 1, 0, m), <<"ab", "c">>, RoundMs)
                \o Map2(LAMBDA part, m : MP(part, "step", 1, 3, m), <<"ab", "c">>, <<"bad", "surplus">>)
                \o Map2(LAMBDA i, m : MP("", "len", i, 0, m), Range1(1, n), <<"drop", "push">>)
                \o Map1(LAMBDA m : MP("", "alllen", 0, 0, m), <<"drop", "push">>)
                \o Map1(LAMBDA m : MP("", "batch", 1, 0, m), <<"drop", "dropfirst", "empty", "dup">>)
                \o Map1(LAMBDA m : MP("", "gvk", 5, 1, m), <<"drop", "push">>)],
       <<1, 2, 4>>, <<0, 1, 2>>), Ps))

----------------------------------------------------------------------------
Pure0(p, op, kind, n) ==
  [fam |-> "pure", P |-> p, op |-> op, kind |-> kind, n |-> n, m |-> n, pa |-> "rand", pb |-> "rand", pr |-> "rand",
   pk |-> "setup", threads |-> 0, plan |-> "rand"]
IpKinds == <<"pair", "cmp", "mexp1", "mexp2", "scal">>
IpLens == Range1(0, 33) \o IfDeep(<<48, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257>>, <<63, 64, 65, 128>>)
IpLong == <<95, 96, 97, 100, 127, 129, 191, 193, 200, 255, 256, 257, 300, 383, 385, 500, 511, 512, 513, 700, 1000, 1023, 1024, 1025>>
          \o IfDeep(<<1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 8192, 10000, 16385>>, <<>>)
IpLongest == <<1500, 2047, 2048, 2049, 3000, 4096, 4097, 8192, 8193>>
Threads == IfDeep(<<1, 2, 3, 4, 5, 7, 8, 16>>, <<1, 2, 3, 5, 8>>)
IpAll == FlattenSeq(Map1(LAMBDA p :
  Map3(LAMBDA kind, n, t : [Pure0(p, "ip", kind, n) EXCEPT !.threads = t], IpKinds, IpLens, Threads)
  \o Map3(LAMBDA kind, n, t : [Pure0(p, "ip", kind, n) EXCEPT !.threads = t], IpKinds, IpLong, IfDeep(Threads, <<1, 7>>))
  \o Map3(LAMBDA kind, n, t : [Pure0(p, "ip", kind, n) EXCEPT !.threads = t], IpKinds, IpLongest, <<3>>)
  \o Map3(LAMBDA kind, n, m : [Pure0(p, "ip", kind, n) EXCEPT !.m = m], IpKinds, <<255, 256, 1024>>, <<0, 1, 128, 254, 257, 512, 1023>>)
  \o Map3(LAMBDA kind, n, pat : [Pure0(p, "ip", kind, n) EXCEPT !.pa = pat], IpKinds, <<1, 2, 3, 5, 8, 17>>, Vecs)
  \o Map3(LAMBDA kind, n, pat : [Pure0(p, "ip", kind, n) EXCEPT !.pb = pat], IpKinds, <<1, 2, 3, 5, 8, 17>>, Vecs)
  \o Map3(LAMBDA kind, n, m : [Pure0(p, "ip", kind, n) EXCEPT !.m = m], IpKinds, <<0, 1, 2, 3, 4, 7, 8, 9, 16>>, <<0, 1, 2, 3, 4, 5, 8, 9, 17>>),
  Ps))
SVecs == <<"rand", "rep", "one", "zero", "onlyfirst", "anti">>
SprodAll == FlattenSeq(Map1(LAMBDA p :
  Map2(LAMBDA n, t : [Pure0(p, "sprod", "", n) EXCEPT !.threads = t], Range1(0, 17), <<0, 1, 2, 3>>)
  \o Map3(LAMBDA n, pa, pb : [Pure0(p, "sprod", "", n) EXCEPT !.pa = pa, !.pb = pb], <<1, 3, 4>>, Vecs, Vecs)
  \o Map1(LAMBDA n : Pure0(p, "sprod", "", n), <<31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025>>)
  \o Map2(LAMBDA n, t : [Pure0(p, "sprod", "", n) EXCEPT !.threads = t], <<33, 64, 65, 130>>, <<1, 2, 3, 5>>), Ps))
ComKinds == <<"ag1", "ag2", "ped1", "ped2">>
IdKinds == <<"idf", "id1", "idt">>
CommitAll == FlattenSeq(Map1(LAMBDA p :
  Map3(LAMBDA kind, n, pb : [Pure0(p, "commit", kind, n) EXCEPT !.pb = pb], ComKinds,
       IfDeep(<<0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 32, 33, 64>>, <<0, 1, 2, 3, 5, 8, 9, 17>>), IfDeep(Vecs, <<"rand", "zero", "sparse", "neg", "rep">>))
  \o Map3(LAMBDA kind, n, pk : [Pure0(p, "commit", kind, n) EXCEPT !.pk = pk], ComKinds, <<1, 4, 7>>, Vecs)
  \o Map3(LAMBDA kind, n, m : [Pure0(p, "commit", kind, n) EXCEPT !.m = m], ComKinds, <<0, 1, 2, 4, 8, 9>>, <<0, 1, 2, 3, 5, 8, 10, 16>>)
  \o Map2(LAMBDA kind, pb : [Pure0(p, "commit", kind, 1) EXCEPT !.pb = pb], IdKinds, Vecs)
  \o Map2(LAMBDA kind, n : Pure0(p, "commit", kind, n), <<"ssm">>, <<1, 2, 4>>)
  \o Map2(LAMBDA kind, t : [Pure0(p, "commit", kind, 9) EXCEPT !.threads = t], ComKinds, <<1, 2, 3>>)
  \o Map2(LAMBDA kind, n : Pure0(p, "commit", kind, n), ComKinds, <<31, 64, 100, 129, 256, 300, 1000, 1024, 1025, 2048, 2049, 4096>>)
  \o Map3(LAMBDA kind, n, pa : [Pure0(p, "idlist", kind, n) EXCEPT !.pa = pa], IdKinds, <<1, 2, 3, 4, 5, 8, 9, 16, 33>>,
          IfDeep(Vecs, <<"rand", "zero", "rep", "tail0">>)), Ps))
\* keys of several setups
KeyKinds == ComKinds \o <<"gipa.pair", "gipa.mexp", "gipa.mexp2", "ssm.mexp", "tipa.pair", "tipa.mexp", "tssm.mexp", "agg", "kzg",
                          "tpc", "npc", "tpcu", "npcu">>
KeysAll == Map2(LAMBDA kind, n : [Pure0(BIG, "keys", kind, n) EXCEPT !.m = IfDeep(48, 16)], KeyKinds, IfDeep(<<2, 4, 8, 16, 32>>, <<2, 4, 8, 16>>))
  \o Map2(LAMBDA kind, n : [Pure0(BIG, "keys", kind, n) EXCEPT !.m = 4], ComKinds \o <<"gipa.pair", "gipa.mexp", "ssm.mexp", "npc">>, <<300, 700, 1100>> \o IfDeep(<<2100, 4200>>, <<>>))
SrsAll == FlattenSeq(Map1(LAMBDA p :
  Map3(LAMBDA kind, n, s : [Pure0(p, "spowers", kind, n) EXCEPT !.pb = s], <<"g1", "g2", "f">>, Range1(1, IfDeep(40, 20)), Scalars)
  \o Map2(LAMBDA kind, n : Pure0(p, "spowers", kind, n), <<"g1", "g2", "f">>,
          <<31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097>>
          \o IfDeep(<<4095, 8191, 8192, 8193>>, <<>>))
  \o Map3(LAMBDA kind, n, g : [Pure0(p, "spowers", kind, n) EXCEPT !.pa = g], <<"g1", "g2", "f">>, <<1, 2, 5, 9>>, Scalars)
  \o Map2(LAMBDA n, pat : [Pure0(p, "srskeys", "", n) EXCEPT !.pa = pat], <<1, 2, 3, 4, 7, 8, 16>>, Tail(SrsPats))
  \o FlattenSeq(Map1(LAMBDA op : Map2(LAMBDA kind, n : Arg(p, op, kind, n, "rand", "rand", "setup", "one", "rand"), KindsOf(op),
       IfDeep(<<1, 2, 4, 8, 16, 32, 64, 128>>, <<1, 2, 4, 8, 16, 32>>)), <<"tipa", "tssm">>))
  \o Map1(LAMBDA n : Agg(p, n, 1, "rand", "rand", "setup", "rand"), <<1, 2, 4, 8, 16, 32>>)
  \o Map1(LAMBDA deg : Kzg(p, deg, deg + 1, "rand", <<"rand">>, <<>>), Range1(0, IfDeep(70, 33)))
  \o Map1(LAMBDA deg : CommitOnly(Uni(p, "tpc", deg, deg + 1, "rand", APoint, "rand")), Range1(0, IfDeep(70, 33)))
  \o Map2(LAMBDA xd, yd : CommitOnly(Bi(p, "tpc", xd, yd, xd + 1, yd + 1, 0, "rand", APoint, "rand")), <<0, 1, 3, 7, 15>>, Range1(0, 9)), Ps))
CkAll == FlattenSeq(Map1(LAMBDA p :
  Map4(LAMBDA kind, n, s, pk : [Pure0(p, "ckopen", kind, n) EXCEPT !.pb = s, !.pk = pk], <<"g1", "g2">>,
       IfDeep(<<1, 2, 4, 8, 16, 32>>, <<1, 2, 4, 8>>), <<"rand", "one", "neg">>, <<"other", "tgen", "t1", "tsame">>)
  \o Map3(LAMBDA kind, n, pa : [Pure0(p, "ckopen", kind, n) EXCEPT !.pa = pa, !.pk = "other"], <<"g1", "g2">>, <<2, 4, 8>>,
          <<"zero", "one", "neg", "alt">>), Ps))

----------------------------------------------------------------------------
O(o, k) == [o |-> o, k |-> k]
RngS(gens) == [fam |-> "rng", P |-> BIG, gens |-> gens, plan |-> "rand"]
Materials == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9>>
Draws == <<O("u32", 0), O("u64", 0), O("fill", 16), O("fill", 5), O("try", 8), O("fill", 32), O("fill", 0), O("fill", 300)>>
D16 == O("fill", 16)
\* all words over a small alphabet
RECURSIVE Words(_, _)
Words(A, n) == IF n = 0 THEN << <<>> >>
               ELSE FlattenSeq(Map1(LAMBDA w : Map1(LAMBDA a : Append(w, a), A), Words(A, n - 1)))
WordsUpTo(A, n) == FlattenSeq([i \in 1 .. n + 1 |-> Words(A, i - 1)])
\* a word without its i-th operation
Without(w, i) == SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, Len(w))
Variants(w) == <<w>> \o Map1(LAMBDA i : Without(w, i), Range1(1, Len(w)))
Seeded(s, w) == <<O("seed", s)>> \o w
RngAll ==
  \* every history beside the histories that lack one of its operations
  Map1(LAMBDA w : RngS(Map2(LAMBDA s, v : Seeded(s, v \o <<D16, D16>>), <<0, 3>>, Variants(w))),
       WordsUpTo(<<O("absorb", 0), O("absorb", 1), O("absorb", 4), O("u32", 0), O("u64", 0)>>, IfDeep(4, 3)))
  \o
  \* all histories of up to three absorptions of four materials, three seeds; then a draw
  Map1(LAMBDA w : RngS(Map1(LAMBDA s : <<O("seed", s)>> \o w \o <<D16>>, <<0, 1, 2>>)
                       \o Map1(LAMBDA s : <<O("seed", s)>> \o w \o <<D16, D16, O("u64", 0)>>, <<1, 3>>)),
       WordsUpTo(<<O("absorb", 0), O("absorb", 1), O("absorb", 2), D16>>, 3))
  \* all draws between and after absorptions
  \o Map2(LAMBDA w, s : RngS(<< <<O("seed", s)>> \o w \o <<D16>>,
                                <<O("seed", s)>> \o w \o <<O("absorb", 3), D16>>,
                                <<O("seed", s), O("absorb", 3)>> \o w \o <<D16>>,
                                <<O("seed", s), O("absorb", 3), D16>>, <<O("seed", s), D16>> >>),
          WordsUpTo(Draws, IfDeep(3, 2)), <<1, 4>>)
  \* every pair of seeds and materials in one session
  \o << RngS(Map2(LAMBDA s, m : <<O("seed", s), D16, O("absorb", m), D16>>, Materials, Materials)),
        RngS(Map2(LAMBDA s, m : <<O("seed", s), O("absorb", m), O("absorb", s), D16, O("fill", 32)>>, Materials, Materials)),
        RngS(Map3(LAMBDA s, m, k : <<O("seed", s), O("absorb", m), O("absorb", k), D16>>, Range1(0, 5), Range1(0, 5), Range1(0, 5))),
        RngS(Map1(LAMBDA k : <<O("seed", 1)>> \o [i \in 1 .. k |-> O("absorb", 1)] \o <<D16>>, Range1(0, 24))),
        RngS(<< Seeded(1, [i \in 1 .. 60 |-> O("u32", 0)]), Seeded(2, [i \in 1 .. 60 |-> O("u64", 0)]),
                Seeded(3, [i \in 1 .. 60 |-> O("fill", 8)]), Seeded(4, [i \in 1 .. 60 |-> O("try", 9)]) >>),
        RngS(<< Seeded(1, <<O("fill", 1000)>>), Seeded(1, <<O("fill", 1000)>>), Seeded(1, <<O("try", 700)>>), Seeded(1, <<O("try", 700)>>),
                Seeded(1, <<O("fill", 3)>>), Seeded(1, <<O("fill", 3)>>) >>),
        \* long material which differs in one place, of all lengths
        RngS(Map2(LAMBDA i, v : <<O("seed", 1), O("absorb", 100 + 10 * i + v), D16>>, Range1(0, 9), Range1(0, 7))),
        RngS(Map2(LAMBDA i, v : <<O("seed", 100 + 10 * i + v), D16>>, Range1(0, 9), Range1(0, 7))),
        RngS(Map2(LAMBDA i, v : <<O("seed", 100 + 10 * i), O("absorb", 100 + 10 * ((i + 3) % 10) + v), O("absorb", 1), D16>>, Range1(0, 9), Range1(0, 7))),
        RngS(<< Seeded(1, <<O("fill", 70000), D16>>), Seeded(1, <<O("try", 70000), D16>>), Seeded(2, <<O("fill", 5000), D16>>),
                Seeded(2, <<O("fill", 4999), D16>>) >>),
        RngS(Map1(LAMBDA k : <<O("seed", 1)>> \o [i \in 1 .. k |-> O("u32", 0)] \o <<D16>>, Range1(0, 40))),
        RngS(Map1(LAMBDA k : <<O("seed", 1)>> \o [i \in 1 .. k |-> O("u64", 0)] \o <<D16>>, Range1(0, 40))) >>
  \* material that contains a digest the previous generator ended with
  \o Map2(LAMBDA o, m : RngS(
       << <<O("seed", 3), D16>>, <<O(o, m), D16>>, <<O("seed", 3), O("absorb", m), D16>>,
          <<O("seed", 3), O("absorb", 4), D16>>, <<O(o, m), D16>>, <<O("seed", 3), O("absorb", 4), O("absorb", m), D16>>,
          <<O("seed", 3), O("absorb", 4), D16>>, <<O(o, m), O("absorb", 2), D16>> >>),
       <<"seedmd", "seeddm", "seedmd0", "seedmd1">>, <<0, 1, 4, 8>>)
  \o Map2(LAMBDA o, m : RngS(
       << <<O("seed", 3), D16>>, <<O("seed", 3), O(o, m), D16>>, <<O("seed", 3), O("absorb", m), D16>>,
          <<O("seed", 3), O(o, m), O(o, m), D16>>, <<O("seed", 3), O("absorb", m), O("absorb", m), D16>>,
          <<O("seed", 1), O("absorb", m), O(o, m), D16>>, <<O("seed", 0), O(o, m), D16>> >>),
       <<"absorbmd", "absorbdm">>, <<0, 1, 4, 8>>)

----------------------------------------------------------------------------
\* a fair selection: every k-th
Every(k, s) == [i \in 1 .. (Len(s) + k - 1) \div k |-> s[(i - 1) * k + 1]]
ExactAll(k) == Every(k, ArgExact("gipa")) \o Every(k, ArgExact("tipa")) \o Every(k, ArgExact("ssm")) \o Every(k, ArgExact("tssm"))
Transported == FlattenSeq(Map1(LAMBDA p : FlattenSeq(Map1(LAMBDA op :
    Map3(LAMBDA kind, n, pa : [Arg(p, op, kind, n, pa, "rand", "setup", "rand", "rand") EXCEPT !.transport = 1],
         KindsOf(op), IfDeep(<<1, 2, 4, 8, 16, 32>>, <<1, 2, 4, 8>>), IfDeep(Vecs, <<"rand", "zero", "onlylast", "alt">>))
    \o Map2(LAMBDA kind, pl : [Arg(p, op, kind, 4, "rand", "rand", "setup", "rand", pl) EXCEPT !.transport = 1], KindsOf(op), Plans)
    \o Map2(LAMBDA kind, n : [Arg(p, op, kind, n, "rand", "rand", "setup", "rand", "rand") EXCEPT !.transport = 1], KindsOf(op),
            IfDeep(<<64, 128, 256, 512>>, <<16, 32, 128>>)),
    <<"gipa", "tipa", "ssm", "tssm">>)), Ps))

\* sessions of all kinds, mixed
Longest(ss) == CHOOSE n \in {Len(ss[i]) : i \in 1 .. Len(ss)} : \A i \in 1 .. Len(ss) : Len(ss[i]) <= n
Mixed(ss) == FlattenSeq([k \in 1 .. Longest(ss) |-> FlattenSeq([i \in 1 .. Len(ss) |-> IF k <= Len(ss[i]) THEN <<ss[i][k]>> ELSE <<>>])])
\* up to n of them, evenly spread
Some(n, s) == IF Len(s) <= n THEN s ELSE Every(Len(s) \div n, s)
Fits(s) == SelectSeq(s, LAMBDA x : ~("plan" \in DOMAIN x /\ x.plan = "retry300") /\ ~("threads" \in DOMAIN x /\ x.fam # "pure" /\ x.threads # 0))
MixedAll == LET k == IfDeep(120, 16) IN Mixed(Map1(LAMBDA s : Some(k, Fits(s)),
  << ArgComplete("gipa"), ArgExact("tipa"), ArgMalformed("gipa"), SippComplete, ArgComplete("tssm"), SippExact, ArgExact("ssm"), Refusal,
     PolyComplete("tpc"), RngAll, PolyMal("npc"), SippMal, ArgComplete("tipa"), PolyServe("tpc"), ArgExact("gipa"), AggComplete, KzgAll,
     ArgComplete("ssm"), ArgMalformed("tssm"), IpAll, PolyExact("npc"), CommitAll, SprodAll, SrsAll, AggMal, CkAll, PolyServe("npc"), AggExact,
     ArgMalformed("tipa"), SippSpecial, PolyComplete("npc"), PolyExact("tpc"), Transported >>))

Selection ==
  CASE Prop = "C01" -> ArgComplete("gipa")
    [] Prop = "C02" -> ArgExact("gipa")
    [] Prop = "C03" -> Refusal
    [] Prop = "C04" -> ArgComplete("tipa")
    [] Prop = "C05" -> ArgExact("tipa") \o CkAll
    [] Prop = "C06" -> ArgComplete("ssm") \o ArgComplete("tssm")
    [] Prop = "C07" -> ArgExact("ssm") \o ArgExact("tssm")
    [] Prop = "C08" -> SippComplete \o FlattenSeq(Map1(LAMBDA p :
                         Map4(LAMBDA n, pa, pb, pr : SippS(p, n, pa, pb, pr, 0, "rand"), <<2, 8>>, SVecs, SVecs, SVecs), Ps)) \o SprodAll
    [] Prop = "C09" -> SippExact \o SippSpecial
    [] Prop = "C10" -> ExactAll(IfDeep(1, 3)) \o Every(IfDeep(1, 6), PolyExact("tpc")) \o Every(IfDeep(1, 6), PolyExact("npc"))
                       \o Every(IfDeep(1, 3), AggExact) \o Every(IfDeep(1, 5), ArgComplete("gipa"))
    [] Prop = "C11" -> RngAll
    [] Prop = "C12" -> PolyComplete("tpc")
    [] Prop = "C13" -> PolyExact("tpc") \o PolyStyled("tpc")
    [] Prop = "C14" -> PolyComplete("npc")
    [] Prop = "C15" -> PolyExact("npc") \o PolyStyled("npc")
    [] Prop = "C16" -> PolyServe("tpc") \o PolyServe("npc")
    [] Prop = "C17" -> AggComplete
    [] Prop = "C18" -> AggExact \o AggStyled
    [] Prop = "C19" -> IpAll
    [] Prop = "C20" -> CommitAll
    [] Prop = "C21" -> SrsAll \o CkAll
    [] Prop = "C22" -> KzgAll
    [] Prop = "C23" -> ArgMalformed("gipa") \o ArgMalformed("tipa") \o ArgMalformed("ssm") \o ArgMalformed("tssm")
                       \o SippMal \o PolyMal("tpc") \o PolyMal("npc") \o AggMal
    [] Prop = "C24" -> Transported
    [] Prop = "C25" -> KeysAll
    [] Prop = "C26" -> MixedAll

Numbered == LET s == Selection IN [i \in 1 .. Len(s) |-> s[i] @@ [id |-> i]]
ASSUME LET s == TLCEval(Numbered)
       IN /\ ndJsonSerialize(OutFile, s)
          /\ PrintT("SCENARIOS|" \o ToString(Len(s)))
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
