----------------------------- MODULE GSimplexMC -----------------------------
EXTENDS GSimplex, TLC, Json
CONSTANTS Depth, MaxNodes
VARIABLE path
mcvars == <<gvars, path>>
Log(op) == path' = Append(path, op)
MCInit == GInit /\ path = <<>>
R(s) == {RandomElement(s)}
Seqs(n) == {q \in [1..n -> DOMAIN node] : Cardinality({VertexOf(q[i]) : i \in 1..n}) = n}
EvenPerms(n) == {r \in [1..n -> 1..n] : Cardinality(Range(r)) = n /\ Sign(r) = 1}
Even == TLCEval([n \in 2..4 |-> TLCEval(EvenPerms(n))])
\* the orders of the nodes of j with the orientation of j
Orders(j) == {q \in Seqs(Cardinality(h[j].s)) : Oriented(VerticesOf(q)) = h[j]}

\* (the last may share the vertex or the point of another)
Nodes == \E v \in 1..(nv + 1), p \in 1..(np + 1) :
           /\ v <= V /\ (Len(node) < MaxNodes - 1 => v > nv /\ p > np)
           /\ Node(v, p) /\ Log(<<"node", v, p>>)
Ops(k) ==
  \/ \E n \in 2..(D + 1) : \E q \in Seqs(n) : Build(k, q) /\ Log(<<"mk", k, n - 1>> \o q)
  \/ \E n \in 3..(D + 1) : \E q \in Seqs(n) : \E r \in Even[n] : r # [i \in 1..n |-> i] /\ q[1] = 1
        /\ BuildOn(k, q, r) /\ Log(<<"on", k, n - 1>> \o q \o r)
  \/ \E j \in Handles :
       \/ h[j] # Null /\ \E q \in Orders(j) : OnSimplexOf(k, j, q) /\ Log(<<"re", k, j>> \o q)
       \/ Turn(k, j) /\ Log(<<"flip", k, j>>)
       \/ h[j] # Null /\ \E v \in h[j].s : Side(k, j, v) /\ Log(<<"face", k, j, v>>)
  \/ \E a, b, j \in Handles : Swap(k, j, a, b, 1) /\ Log(<<"diag", k, j, a, b>>)
\* every simplex of a few nodes, and every operation on it
Chain ==
  \/ Len(node) < MaxNodes /\ Nodes
  \/ Len(node) = MaxNodes /\ Len(path) < MaxNodes + 2 /\ \E k \in Handles : (\A j \in Handles : j < k => h[j] # Null) /\ Ops(k)
MCSpec == MCInit /\ [][Chain]_mcvars
EmitEdge == (Len(path') = MaxNodes + 2) => PrintT("@" \o ToJson(path'))
View == <<gvars, Len(path)>>
\* random histories
Perm(n) == RandomElement(Even[n])
RECURSIVE Choice(_, _)
Choice(set, n) == IF n = 0 \/ set = {} THEN <<>> ELSE LET x == RandomElement(set) IN <<x>> \o Choice({y \in set : VertexOf(y) # VertexOf(x)}, n - 1)
PickSeq(n) == Choice(DOMAIN node, n)
Bound == {j \in Handles : h[j] # Null /\ Dim(h[j].s) > 0}
Least2(s) == CHOOSE k \in s : \A m \in s : k <= m
Twins == {ab \in Bound \X Bound : Flippable(h[ab[1]], h[ab[2]]) /\ Agree(ab[1], ab[2])}
\* a neighbour of j across the edge opposite to v: its other corner is a node not among those of j
Neighbour(k, j) ==
  \E v \in R(h[j].s) : LET rest == {n \in DOMAIN node : VertexOf(n) \notin h[j].s} IN
    rest # {} /\ \E m \in R(rest) :
      LET q == SeqTable[h[j].s][h[j].o]
          nd(u) == CHOOSE n \in g[j] : VertexOf(n) = u
          i == CHOOSE i \in 1..3 : q[i] = v
          f == <<m, nd(q[((i + 1) % 3) + 1]), nd(q[(i % 3) + 1])>>
      IN Build(k, f) /\ Log(<<"mk", k, 2>> \o f)
Try(t, k) ==
  CASE t \in 1..4 -> Len(node) < MaxNodes /\ \E v \in R(1..(IF nv < V THEN nv + 1 ELSE nv)) : \E p \in R(1..(np + 1)) : Node(v, p) /\ Log(<<"node", v, p>>)
    [] t \in 5..6 -> Len(node) < MaxNodes /\ nv < V /\ Node(nv + 1, np + 1) /\ Log(<<"place">>)
    [] t = 7 -> np < 12 /\ Point /\ Log(<<"point">>)
    [] t \in 8..11 -> \E n \in R(2..(D + 1)) : \E q \in {PickSeq(n)} : Len(q) = n /\ Build(k, q) /\ Log(<<"mk", k, n - 1>> \o q)
    [] t \in 12..14 -> \E n \in R(2..(D + 1)) : \E q \in {PickSeq(n)} : Len(q) = n /\ \E r \in R(Even[n]) :
                        BuildOn(k, q, r) /\ Log(<<"on", k, n - 1>> \o q \o r)
    [] t \in 15..16 -> \E j \in R(Bound) : \E q \in {PickSeq(Cardinality(h[j].s))} : OnSimplexOf(k, j, q) /\ Log(<<"re", k, j>> \o q)
    [] t \in 17..18 -> \E j \in R(Bound) : LET qs == Orders(j) IN \E q \in R(qs) : OnSimplexOf(k, j, q) /\ Log(<<"re", k, j>> \o q)
    [] t \in 19..21 -> \E j \in R(Bound) : Turn(k, j) /\ Log(<<"flip", k, j>>)
    [] t \in 22..24 -> \E j \in R(Bound) : \E v \in R(h[j].s) : Side(k, j, v) /\ Log(<<"face", k, j, v>>)
    [] t = 25 -> \E j \in R(Handles) : Assign(k, j) /\ Log(<<"copy", k, j>>)
    [] t = 26 -> h[k] # Null /\ Forget(k) /\ Log(<<"drop", k>>)
    [] t \in 27..30 -> \E ab \in R(Twins) : \E j \in R(Handles) : Swap(k, j, ab[1], ab[2], 1) /\ Log(<<"diag", k, j, ab[1], ab[2]>>)
    [] t \in 31..33 -> \E j \in R({x \in Bound : Dim(h[x].s) = 2}) : Neighbour(k, j)
    [] OTHER -> FALSE
Options == (IF Len(node) < MaxNodes THEN 1..6 ELSE {}) \cup {7} \cup (IF nv > D THEN 8..14 ELSE {})
           \cup (IF Bound = {} THEN {} ELSE 15..26) \cup (IF Twins = {} THEN {} ELSE 27..30)
           \cup (IF \E x \in Bound : Dim(h[x].s) = 2 THEN 31..33 ELSE {})
SimNext == \/ \E a \in 1..4 : \E t \in R(Options), k \in R(Handles) : Try(t, k)
           \/ UNCHANGED mcvars
SimSpec == MCInit /\ [][SimNext]_mcvars
EmitRun == IF TLCGet("level") = Depth /\ path # <<>> THEN PrintT("@" \o ToJson(path)) ELSE TRUE
=============================================================================
