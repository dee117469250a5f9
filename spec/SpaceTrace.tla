----------------------------- MODULE SpaceTrace -----------------------------
EXTENDS Space, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
A == E.a
Has(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Vec(at) == [i \in Dim |-> A[at + i - 1]]
\* what is told, times 1024 and rounded, is num / den
Near(v, num, den) == Abs(den * v - 1024 * num) <= den
NearV(v, num, den) == \A i \in Dim : Near(v[i], num[i], den)
\* the system s has its points, and no others, where they are
Told(s) == "at" \in DOMAIN E =>
  /\ E.n = Cardinality(DOMAIN sys'[s].at)
  /\ E.canonical
  /\ "cloud" \in DOMAIN E => \A i \in 1..3 : E.cloud[i] = npoints'      \* all points are in the cloud
  /\ \A p \in 1..npoints' : IF p \in DOMAIN sys'[s].at THEN E.at[p][1] = 1 /\ NearV(Tail(E.at[p]), sys'[s].at[p], 4)
                            ELSE E.at[p][1] = 0
Last == Len(sys')
\* the vector from p to q added to p is q, as near as it can be told
Told2(s, p, q) == UNCHANGED vars /\ Is(s, p) /\ Is(s, q)
  /\ NearV(E.vector, Vector(s, p, q), 4)
  /\ Near(E.distance2, Distance2(s, p, q), 16) /\ Near(E.reverse2, Distance2(s, p, q), 16)
  /\ NearV(E.there, At(s, q), 4)
  /\ NearV(E.middle, Add(At(s, p), At(s, q)), 8)
CellTold(s, c, b) == UNCHANGED vars /\ (\A i \in 1..Len(c) : Is(s, c[i]))
  /\ NearV(E.barycenter, Sum(s, c), 4 * Len(c))
  /\ NearV(E.base, At(s, c[1]), 4)
  /\ \A i \in 1..(Len(c) - 1) : NearV(E.directors[i], Vector(s, c[1], c[i + 1]), 4)
  /\ NearV(E.point, Weighted(s, c, b), 16)
MetricTold(s, p, u, v, w, a) ==
  LET k == S(s).kind
      x == At(s, p)
      b == Basis(k, x)
      q == Quarters(k)
  IN /\ UNCHANGED vars /\ Is(s, p)
     /\ \A i \in Dim : NearV(E.e[i], b[i], q[i]) /\ Near(E.dxv[i], Dot(b[i], v), q[i]) /\ Near(E.x[i], E.y[i], 1024)
     /\ \A i, j \in Dim :
          /\ Near(E.g[i][j], Delta(i, j) * H2(k, x)[i], HQuarters(k)[i])
          /\ Near(E.gg[i][j], Delta(i, j), 1)
          /\ Near(E.dxe[i][j], Delta(i, j), 1)
          /\ D > 1 => /\ Near(E.wedge[i][j], Delta(1, i) * Delta(2, j) - Delta(1, j) * Delta(2, i), 1)
                      /\ Near(E.tensor[i][j], Delta(2, i) * Delta(1, j), 1)
     /\ D > 2 => \A i, j, k3 \in Dim :
          /\ Near(E.tensor3[i][j][k3], Delta(3, i) * Delta(1, j) * Delta(2, k3), 1)
          /\ Near(E.wedge3[i][j][k3], -Det(<<[m \in Dim |-> Delta(m, i)], [m \in Dim |-> Delta(m, j)], [m \in Dim |-> Delta(m, k3)]>>), 1)
     /\ Near(E.w, Det(SubSeq(<<u, v, w>>, 1, D)), 1)
     /\ Near(E.flat, Dot(u, v), 1)
     /\ NearV(E.sharp, u, 1)
     /\ NearV(E.combination, a, 1)
Cell == LET n == A[2] IN CellTold(A[1], SubSeq(A, 3, 2 + n), SubSeq(A, 3 + n, 1 + 2 * n))
TInit == Init /\ l = 1
TNext ==
  \/ Has("Reset") /\ sys' = <<>> /\ npoints' = 0
  \/ Has("new") /\ New(A[1]) /\ Told(Last)
  \/ Has("place") /\ Place(A[1], Vec(2)) /\ Told(A[1])
  \/ Has("also") /\ Also(A[1], A[2], Vec(3)) /\ Told(A[1])
  \/ Has("change") /\ Change(A[1], A[2]) /\ Told(Last)
  \/ Has("shift") /\ Shift(A[1], A[2], Vec(3)) /\ Told(A[1])
  \/ Has("mid") /\ Middle(A[1], A[2], A[3]) /\ Told(A[1])
  \/ Has("diff") /\ Told2(A[1], A[2], A[3])
  \/ Has("cell") /\ Cell
  \/ Has("metric") /\ MetricTold(A[1], A[2], Vec(3), Vec(3 + D), Vec(3 + 2 * D), Vec(3 + 3 * D))
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
