--------------------------- MODULE CalculusTrace ---------------------------
EXTENDS Calculus, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
A == E.a
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
From(n) == SubSeq(A, n, Len(A))
\* the values are recorded in units of 1/1024
Near(v, r) == (r[2] # 0 /\ r[2] <= 1000 /\ Abs(r[1]) <= 1000 * r[2]) =>
                 Abs(v) <= 1100000 /\ Abs(r[2] * v - 1024 * r[1]) <= r[2]
Observed == LET f == fn'[Len(fn')] IN
  /\ E.dom = f.dom
  /\ \A p \in 1..NPoints(f.dom) : \A i \in 1..Size[f.cod] : Near(E.v[p][i], f.t[p][i][1])
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ fn' = <<>>
  \/ Is("lib") /\ Library(A[1]) /\ Observed
  \/ Is("pow") /\ Power(A[1]) /\ Observed
  \/ Is("comp") /\ Component(A[1]) /\ Observed
  \/ Is("const") /\ Constant(A[1], A[2], From(3)) /\ Observed
  \/ Is("formula") /\ Formula(A[1], A[2], A[3]) /\ Observed
  \/ Is("add") /\ Add(A[1], A[2]) /\ Observed
  \/ Is("sub") /\ Subtract(A[1], A[2]) /\ Observed
  \/ Is("add3") /\ Add3(A[1], A[2], A[3]) /\ Observed
  \/ Is("comb") /\ Combine(A[1], A[2], A[3], A[4]) /\ Observed
  \/ Is("mul") /\ Multiply(A[1], A[2]) /\ Observed
  \/ Is("div") /\ Divide(A[1], A[2]) /\ Observed
  \/ (Is("addc") \/ Is("cadd")) /\ AddConst(A[1], From(3)) /\ Observed
  \/ Is("subc") /\ MinusConst(A[1], From(3)) /\ Observed
  \/ Is("csub") /\ ConstMinus(From(3), A[1]) /\ Observed
  \/ Is("cmul") /\ ConstTimes(A[2], From(3), A[1]) /\ Observed
  \/ Is("mulc") /\ TimesConst(A[1], A[2], From(3)) /\ Observed
  \/ Is("divc") /\ OverConst(A[1], A[2]) /\ Observed
  \/ Is("cdiv") /\ ConstOver(A[2], From(3), A[1]) /\ Observed
  \/ Is("neg") /\ Negate(A[1]) /\ Observed
  \/ Is("transpose") /\ Transposed(A[1]) /\ Observed
  \/ Is("det") /\ Determinant(A[1]) /\ Observed
  \/ Is("inv") /\ Inverted(A[1]) /\ Observed
  \/ Is("dyadic") /\ Dyadic(A[1], A[2]) /\ Observed
  \/ (Is("atv") \/ Is("atm") \/ Is("atr") \/ Is("atc")) /\ Subscript(A[1], A[2]) /\ Observed
  \/ Is("compose") /\ Compose(A[1], A[2]) /\ Observed
  \/ Is("d") /\ Partial(A[1], A[2]) /\ Observed
  \/ Is("grad") /\ Gradient(A[1]) /\ Observed
  \/ Is("vector") /\ Vector(A[1], A[2]) /\ Observed
TSpec == TInit /\ [][TNext]_<<fn, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
