----------------------------- MODULE MeasureMC -----------------------------
EXTENDS Measure, TLC, Json
CONSTANTS Depth, MaxDegree, MaxFlux, Kinds,
          Volumes       \* asking for volumes, or for integrals
VARIABLE path
mcvars == <<vars, path>>
Log(op) == path' = Append(path, op)
Ask(op) == UNCHANGED vars /\ Log(op)
R(s) == {RandomElement(s)}
RECURSIVE Flat(_, _)
Flat(q, n) == IF n = 0 THEN <<>> ELSE Flat(q, n - 1) \o q[n]
FlatAll(q) == Flat(q, Len(q))
\* the first node of every cell is off the axes, where curvilinear coordinates are regular
Regular(c) == LET x == pos[c[1]] IN IF D = 1 THEN TRUE ELSE {x[1], x[2]} # {0}
RegularFacets(c) == \A m \in 1..Len(c) : {pos[c[m]][1], pos[c[m]][2]} # {0}
May(k) == IF k = 0 THEN TRUE ELSE \A m \in DOMAIN cells : Regular(cells[m])
MayFlux(k) == IF k = 0 THEN TRUE ELSE \A m \in DOMAIN cells : RegularFacets(cells[m])
Monomials(r) == [1..r -> {[i \in 1..(D + 1) |-> IF i = k THEN 1 ELSE 0] : k \in 2..(D + 1)} \cup {One}]
Normals == IF N = D THEN {<<>>} ELSE IF D - N = 1 THEN {<<Axis(k)>> : k \in Dim} ELSE {<<Axis(k), Axis((k % D) + 1)>> : k \in Dim}
MCInit == Init /\ path = <<>>
\* all monomials on a few cells
Cell0 == [i \in 1..(N + 1) |-> i]
Corner(i) == [k \in Dim |-> IF i = 1 THEN (IF k = 1 THEN 1 ELSE 0) ELSE IF k = i - 1 THEN 2 + (k % 2) ELSE IF k < i - 1 THEN 1 ELSE 0]
MCNext ==
  IF Len(pos) < N + 1 THEN LET x == Corner(Len(pos) + 1) IN Node(x) /\ Log(<<"node">> \o x)
  ELSE IF cells = <<>> THEN \E c \in {Cell0, [Cell0 EXCEPT ![1] = 2, ![2] = 1]} : Insert(c) /\ Log(<<"cell">> \o c)
  ELSE /\ Len(path) = N + 2
       /\ IF Volumes THEN \E k \in Kinds : \E n \in Normals : May(k) /\ Ask(<<"volume", k, 0>> \o FlatAll(n))
          ELSE
          \/ \E k \in Kinds : \E r \in 1..MaxDegree : \E L \in Monomials(r) : \E n \in Normals :
               (k = 0 \/ n \in {<<Axis(1)>>, <<>>}) /\ May(k) /\ Ask(<<"integral", k, r>> \o FlatAll(n) \o FlatAll(L))
          \/ N = D /\ N > 1 /\ \E k \in Kinds : \E i \in Dim : \E r \in 1..MaxFlux : \E L \in Monomials(r) : MayFlux(k)
               /\ Ask(<<"flux", k, i, r>> \o FlatAll(L))
MCSpec == MCInit /\ [][MCNext]_mcvars
EmitEdge == (Len(path') = N + 3) => PrintT("@" \o ToJson(path'))
EmitRun == IF TLCGet("level") = Depth /\ path # <<>> THEN PrintT("@" \o ToJson(path)) ELSE TRUE
\* random meshes and polynomials
RECURSIVE Choice(_, _)
Choice(set, n) == IF n = 0 \/ set = {} THEN <<>> ELSE LET x == RandomElement(set) IN <<x>> \o Choice(set \ {x}, n - 1)
RV(b) == [i \in Dim |-> RandomElement((-b)..b)]
Affine(b) == [i \in 1..(D + 1) |-> RandomElement((-b)..b)]
RNormals(b) == [i \in 1..(D - N) |-> RV(b)]
Bound == 1500000
Fits(n, L) == /\ \A m \in DOMAIN cells : Abs(Moment(cells[m], L)) <= 20000 /\ Abs(Content(cells[m], n)) <= 200
              /\ Abs(OnMesh(n, L)) <= Bound
FitsFlux(k, L) == /\ \A m \in DOMAIN cells : \A i \in 1..(N + 1) : LET f == Facets(cells[m])[i] IN
                       Abs(Moment(f, L)) <= 20000 /\ Abs(Content(f, <<Axis(k)>>)) <= 100
                  /\ Abs(OutOfMesh(k, L)) <= Bound
Try(t) ==
  CASE t \in 1..3 -> Len(pos) < 7 /\ \E x \in {RV(3)} : (\A i \in DOMAIN pos : pos[i] # x) /\ Node(x) /\ Log(<<"node">> \o x)
    [] t \in 4..6 -> Len(cells) < 5 /\ \E c \in {Choice(DOMAIN pos, N + 1)} : Len(c) = N + 1 /\ Insert(c) /\ Log(<<"cell">> \o c)
    [] t \in 7..9 -> cells # <<>> /\ \E k \in R(Kinds) : \E n \in {RNormals(2)} : \E j \in R({0, 0, 1}) : May(k)
                     /\ (k = 0 \/ j = 0) /\ Ask(<<"volume", k, j>> \o FlatAll(n))
    [] t \in 10..14 -> cells # <<>> /\ \E k \in R(Kinds) : \E r \in R(1..MaxDegree) : \E n \in {RNormals(2)} : May(k) /\
                     \E L \in {[i \in 1..r |-> Affine(IF r > 2 THEN 1 ELSE 2)]} : Fits(n, L)
                     /\ Ask(<<"integral", k, r>> \o FlatAll(n) \o FlatAll(L))
    [] t \in 15..18 -> cells # <<>> /\ N = D /\ N > 1 /\ \E k \in R(Kinds) : \E r \in R(1..MaxFlux) : MayFlux(k) /\ \E i \in R(Dim) :
                     \E L \in {[j \in 1..r |-> Affine(IF r > 2 THEN 1 ELSE 2)]} : FitsFlux(i, L) /\ Ask(<<"flux", k, i, r>> \o FlatAll(L))
    [] OTHER -> FALSE
Options == (IF Len(pos) < 7 THEN 1..3 ELSE {}) \cup (IF Len(cells) < 5 /\ Len(pos) > N THEN 4..6 ELSE {})
           \cup (IF cells = <<>> THEN {} ELSE IF Volumes THEN 7..9 ELSE IF N = D /\ N > 1 THEN 10..18 ELSE 10..14)
SimNext == \/ \E a \in 1..6 : \E t \in R(Options) : Try(t)
           \/ UNCHANGED mcvars   \* (lest a behaviour end early)
SimSpec == MCInit /\ [][SimNext]_mcvars
\* at the state before the questions
DivergenceOnce == Len(path) = N + 2 => Divergence
=============================================================================
