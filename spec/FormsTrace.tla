----------------------------- MODULE FormsTrace -----------------------------
EXTENDS Forms, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
A == E.a
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Vec(at) == [i \in Dim |-> A[at + i - 1]]
Mat(at) == [i \in Dim |-> [j \in Dim |-> A[at + (i - 1) * D + j - 1]]]
\* the values recorded on the basis vectors, the last index running fastest
RECURSIVE Place(_, _)
Place(x, k) == IF k = 0 THEN 0 ELSE D * Place(x, k - 1) + x[k] - 1
Observed == LET f == form'[Len(form')] IN
  /\ E.p = f.p
  /\ \A x \in Index[f.p] : E.c[Place(x, f.p) + 1] = f.c[x]
Open(p, at) == {k \in 1..p : A[at + k - 1] = 1}
Vs(p, at) == [k \in 1..p |-> Vec(at + p + (k - 1) * D)]
Evaluated == LET f == F(A[1]) IN UNCHANGED form /\ E.value = Value(f, [k \in 1..f.p |-> Vec(2 + (k - 1) * D)])
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ form' = <<>>
  \/ Is("one") /\ FromDiagonal(Vec(1), [i \in Dim |-> 1]) /\ Observed
  \/ Is("diag") /\ FromDiagonal(Vec(1), Vec(D + 1)) /\ Observed
  \/ Is("sym") /\ FromSymmetric(Vec(1), Mat(D + 1)) /\ Observed
  \/ Is("add") /\ Add(A[1], A[2]) /\ Observed
  \/ Is("sub") /\ Subtract(A[1], A[2]) /\ Observed
  \/ Is("neg") /\ Negate(A[1]) /\ Observed
  \/ Is("scale") /\ Scale(A[1], A[2]) /\ Observed
  \/ Is("wedge0") /\ Scale(A[1], A[2]) /\ Observed
  \/ Is("tensor2") /\ Tensor2(A[1], A[2], Open(2, 3), Vs(2, 3)) /\ Observed
  \/ Is("wedge2") /\ Wedge2(A[1], A[2], Open(2, 3), Vs(2, 3)) /\ Observed
  \/ Is("mixed2") /\ Mixed2(A[1], A[2], A[3], Open(2, 4), Vs(2, 4)) /\ Observed
  \/ Is("tensor3") /\ Tensor3(A[1], A[2], A[3], Open(3, 4), Vs(3, 4)) /\ Observed
  \/ Is("wedge3") /\ WedgeThree(A[1], A[2], A[3], Open(3, 4), Vs(3, 4)) /\ Observed
  \/ Is("mixed3") /\ Mixed3(A[1], A[2], A[3], A[4], Open(3, 5), Vs(3, 5)) /\ Observed
  \/ Is("wedge12") /\ WedgeOneTwo(A[1], A[2]) /\ Observed
  \/ Is("eval") /\ Evaluated
TSpec == TInit /\ [][TNext]_<<form, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
