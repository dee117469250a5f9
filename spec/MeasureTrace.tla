---------------------------- MODULE MeasureTrace ----------------------------
EXTENDS Measure, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
A == E.a
Has(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Vec(at) == [i \in Dim |-> A[at + i - 1]]
Vectors(n, at) == [j \in 1..n |-> Vec(at + (j - 1) * D)]
Affines(n, at) == [j \in 1..n |-> [i \in 1..(D + 1) |-> A[at + (j - 1) * (D + 1) + i - 1]]]
\* what is told is v[1] / 2^10 + v[2] / 2^30; it is num / den, to within 2^-27
Close(v, num, den) == LET m == 1024 * num - den * v[1] IN Abs(m) <= den /\ Abs(v[2]) <= 600000 /\ Abs(den * v[2] - 1048576 * m) <= 8 * den
Normal == Vectors(D - N, 3)
VolumeTold == /\ UNCHANGED vars
              /\ LET n == Vectors(D - N, 3) IN
                 /\ Close(E.all, OnMesh(n, <<>>), Fact(N))
                 /\ E.corners = (N + 1) * E.n
                 /\ A[2] = 0 => Len(E.each) = Len(cells) /\ E.n = Len(cells) /\ \A m \in DOMAIN cells : Close(E.each[m], Content(cells[m], n), Fact(N))
IntegralTold == LET r == A[2] IN UNCHANGED vars /\ Close(E.value, OnMesh(Vectors(D - N, 3), Affines(r, 3 + (D - N) * D)), Whole(N, r))
FluxTold == LET r == A[3] IN UNCHANGED vars /\ Close(E.value, OutOfMesh(A[2], Affines(r, 4)), Whole(N - 1, r))
TInit == Init /\ l = 1
TNext ==
  \/ Has("Reset") /\ pos' = <<>> /\ cells' = <<>>
  \/ Has("node") /\ Node(A)
  \/ Has("cell") /\ Insert(A)
  \/ Has("volume") /\ VolumeTold
  \/ Has("integral") /\ IntegralTold
  \/ Has("flux") /\ FluxTold
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
