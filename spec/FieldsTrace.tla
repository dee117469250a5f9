----------------------------- MODULE FieldsTrace -----------------------------
EXTENDS Fields, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
A == E.a
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
From(n) == SubSeq(A, n, Len(A))
\* the values are all integers
Observed == LET f == fn'[Len(fn')] IN
  /\ E.r = f.r /\ E.c = f.c
  /\ {E.v[i].x : i \in DOMAIN E.v} = Points[dim]
  /\ \A i \in DOMAIN E.v : E.v[i].y = [n \in DOMAIN f.p |-> PValue(f.p[n], E.v[i].x)]
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ dim' = 0 /\ fn' = <<>>
  \/ Is("space") /\ InSpace(A[1])
  \/ Is("comp") /\ Coordinate(A[1]) /\ Observed
  \/ Is("const") /\ Constant(A[1], A[2], From(3)) /\ Observed
  \/ Is("formula") /\ Formula(A[1], A[2]) /\ Observed
  \/ (Is("vector") \/ Is("matrix")) /\ Assembled(A[1], A[2], From(3)) /\ Observed
  \/ Is("add") /\ Add(A[1], A[2]) /\ Observed
  \/ Is("sub") /\ Subtract(A[1], A[2]) /\ Observed
  \/ Is("neg") /\ Negate(A[1]) /\ Observed
  \/ Is("mul") /\ Times(A[1], A[2]) /\ Observed
  \/ Is("square") /\ Square(A[1]) /\ Observed
  \/ Is("cube") /\ Cube(A[1]) /\ Observed
  \/ Is("transpose") /\ Transposed(A[1]) /\ Observed
  \/ Is("dyadic") /\ Dyadic(A[1], A[2]) /\ Observed
  \/ Is("at") /\ Subscript(A[1], A[2]) /\ Observed
  \/ Is("d") /\ Partial(A[1], A[2]) /\ Observed
  \/ Is("grad") /\ Gradient(A[1]) /\ Observed
  \/ Is("div") /\ Divergence(A[1]) /\ Observed
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
