----------------------------- MODULE TopologyMC -----------------------------
EXTENDS Topology, TLC, Json
CONSTANTS Depth, MaxDim
VARIABLE path
mcvars == <<nv, vh, fp, reg, h, path>>
Log(op) == path' = Append(path, op)
MCInit == Init /\ path = <<>>
\* facets at hand that close up, in any order
Least(s) == CHOOSE k \in s : \A m \in s : k <= m
First(x) == Least({k \in Handles : h[k] = x})
AtHand(s, b) == \A x \in Comp(s, b) : \E k \in Handles : h[k] = x
Lists(s, b) == {[i \in DOMAIN q |-> First(CHOOSE x \in Comp(s, b) : x.s = s \ {q[i]})] : q \in PermTable[s]}
ComposeStep(k) == \E j \in Handles : h[j] # Null /\ Dim(h[j].s) < MaxDim /\ \E v \in 1..nv : v \notin h[j].s /\
  \E b \in {-1, 1} : AtHand(h[j].s \cup {v}, b) /\ \E q \in Lists(h[j].s \cup {v}, b) :
     Compose(k, q) /\ Log(<<"comp", k, Len(q) - 1, q>>)
Ops(k) ==
  \/ \E n \in 2..(MaxDim + 1) : \E q \in Arrangements(vh, n) : Create(k, q) /\ Log(<<"mk", k, n - 1, q>>)
  \/ \E v \in vh, o \in {-1, 1} : OVertex(k, v, o) /\ Log(<<"ov", k, v, o>>)
  \/ h[k] # Null /\ Drop(k) /\ Log(<<"drop", k>>)
  \/ (Erase(k) \/ EraseNot(k)) /\ Log(<<"erase", k>>)
  \/ \E n \in 3..(MaxDim + 1) : \E q \in Arrangements(vh, n) : q[1] = 1 /\ \E m \in SUBSET (1..n) :
        Validate(q, m) /\ Log(<<"valid", n - 1, q, [i \in 1..n |-> i \in m]>>)
  \/ ComposeStep(k)
  \/ \E j \in Handles :
       \/ Recompose(k, j) /\ Log(<<"recomp", k, j>>)
       \/ FlipOf(k, j) /\ Log(<<"flip", k, j>>)
       \/ j # k /\ h[j] # Null /\ Copy(k, j) /\ Log(<<"copy", k, j>>)
       \/ h[j] # Null /\ \E v \in h[j].s : Face(k, j, v) /\ Log(<<"face", k, j, v>>)
MCNext ==
  \/ nv < V /\ Vertex /\ Log(<<"vertex">>)
  \/ nv = V /\ \E v \in vh : DropVertex(v) /\ Log(<<"dropv", v>>)
  \/ nv = V /\ \E k \in Handles : Ops(k)
\* every order of the facets of every simplex in a fresh complex, then every order of its vertices
N == Cardinality(Handles) - 2
Q0 == SeqTable[1..N]
FreshNext ==
  \/ nv < N /\ Vertex /\ Log(<<"vertex">>)
  \/ nv = N /\ Len(path) < 2 * N /\ LET i == Len(path) - N + 1 IN
       IF i = 1 THEN \E b \in {-1, 1} : LET f == Facets(Q0[b])[1] IN Create(1, f) /\ Log(<<"mk", 1, N - 2, f>>)
       ELSE LET b == IF h[1] = Oriented(Facets(Q0[1])[1]) THEN 1 ELSE -1
                f == Facets(Q0[b])[i] IN Create(i, f) /\ Log(<<"mk", i, N - 2, f>>)
  \/ Len(path) = 2 * N /\ \E q \in PermTable[1..N] : Compose(N + 1, q) /\ Log(<<"comp", N + 1, N - 1, q>>)
  \/ Len(path) = 2 * N + 1 /\ \E q \in PermTable[1..N] : (N > 3 => q[1] = 1) /\ Create(N + 2, q) /\ Log(<<"mk", N + 2, N - 1, q>>)
  \/ Len(path) = 2 * N + 2 /\ Recompose(N + 2, N + 1) /\ Log(<<"recomp", N + 2, N + 1>>)
FreshSpec == MCInit /\ [][FreshNext]_mcvars
\* flipping diagonals of every pair of triangles, however they came about
DiagSim(k, j) ==
  \E x \in Handles, y \in Handles : h[x] # Null /\ h[y] # Null /\ Flippable(h[x], h[y]) /\ k # j
    /\ FlipDiagonal(x, y, k, j, 1) /\ Log(<<"diag", k, j, x, y>>)
\* two triangles from any vertex orders, after anything done before
Pre == \/ Len(path) < V /\ Vertex /\ Log(<<"vertex">>)
       \/ Len(path) = V /\ \E q \in PermTable[{1, 2, 3}] : Create(1, q) /\ Log(<<"mk", 1, 2, q>>)
       \/ Len(path) = V + 1 /\ ((FlipOf(1, 1) /\ Log(<<"flip", 1, 1>>)) \/ (Recompose(1, 1) /\ Log(<<"recomp", 1, 1>>)))
       \/ Len(path) = V + 2 /\ (\/ \E q \in PermTable[{2, 3, 4}] : Create(2, q) /\ Log(<<"mk", 2, 2, q>>)
                                \/ \E q \in PermTable[{1, 2, 4}] : Create(2, q) /\ Log(<<"build", 2, 2, q>>))
       \/ Len(path) = V + 3 /\ ((FlipOf(2, 2) /\ Log(<<"flip", 2, 2>>)) \/ (Recompose(2, 2) /\ Log(<<"recomp", 2, 2>>)))
       \/ Len(path) = V + 4 /\ DiagSim(3, 4)
       \/ Len(path) = V + 5 /\ (Erase(1) \/ EraseNot(1)) /\ Log(<<"erase", 1>>)
       \/ Len(path) = V + 6 /\ (Erase(2) \/ EraseNot(2)) /\ Log(<<"erase", 2>>)
       \/ Len(path) = V + 7 /\ FlipDiagonal(3, 4, 1, 2, 1) /\ Log(<<"diag", 1, 2, 3, 4>>)
DiagSpec == MCInit /\ [][Pre]_mcvars
MCSpec == MCInit /\ [][MCNext]_mcvars

\* a simulation that builds and tears down larger complexes: at every step a few random attempts
R(s) == {RandomElement(s)}
Arr(n) == Arrangements(vh, n)
Try(t, k, j) ==
  CASE t \in 1..5 -> \E n \in R(2..(MaxDim + 1)) : Arr(n) # {} /\ \E q \in R(Arr(n)) :
                       Create(k, q) /\ Log(<<"mk", k, n - 1, q>>)
    [] t \in 6..8 -> \E n \in R(2..(MaxDim + 1)) : Arr(n) # {} /\ \E q \in R(Arr(n)) :
                       Create(k, q) /\ Log(<<"build", k, n - 1, q>>)
    [] t \in 9..14 -> Erase(k) /\ Log(<<"erase", k>>)
    [] t = 15 -> EraseNot(k) /\ Log(<<"erase", k>>)
    [] t \in 16..17 -> h[k] # Null /\ Drop(k) /\ Log(<<"drop", k>>)
    [] t \in 18..20 -> h[j] # Null /\ FlipOf(k, j) /\ Log(<<"flip", k, j>>)
    [] t \in 21..24 -> h[j] # Null /\ \E v \in R(h[j].s) : Face(k, j, v) /\ Log(<<"face", k, j, v>>)
    [] t = 25 -> h[j] # Null /\ Copy(k, j) /\ Log(<<"copy", k, j>>)
    [] t = 26 -> Recompose(k, j) /\ Log(<<"recomp", k, j>>)
    [] t = 27 -> vh # {} /\ \E v \in R(vh), o \in R({-1, 1}) : OVertex(k, v, o) /\ Log(<<"ov", k, v, o>>)
    [] t = 28 -> Len(path) > 10 /\ Cardinality(vh) > 3 /\ \E v \in R(vh) : DropVertex(v) /\ Log(<<"dropv", v>>)
    [] t \in 29..30 -> nv < V /\ Vertex /\ Log(<<"vertex">>)
    [] t = 31 -> \E n \in R(3..4) : n <= MaxDim + 1 /\ Arr(n) # {} /\ \E q \in R(Arr(n)) : \E m \in R(SUBSET (1..n)) :
                       Validate(q, m) /\ Log(<<"valid", n - 1, q, [i \in 1..n |-> i \in m]>>)
    [] t \in 35..40 -> DiagSim(k, j)
    [] OTHER -> ComposeStep(k)
SimNext == IF nv < 4 THEN Vertex /\ Log(<<"vertex">>)
           ELSE \E a \in 1..5 : \E t \in R(1..34), k \in R(Handles), j \in R(Handles) : Try(t, k, j)
SimDiagNext == IF nv < 4 THEN Vertex /\ Log(<<"vertex">>)
               ELSE \E a \in 1..6 : \E t \in R(1..31 \cup 35..40), k \in R(Handles), j \in R(Handles) : Try(t, k, j)
SimDiagSpec == MCInit /\ [][SimDiagNext]_mcvars
SimSpec == MCInit /\ [][SimNext]_mcvars
View == vars
Short == Len(path) < Depth
EmitEdge == PrintT("@" \o ToJson(path'))
EmitRun == IF Len(path) = Depth THEN PrintT("@" \o ToJson(path)) ELSE TRUE
=============================================================================
