------------------------------- MODULE FemMC -------------------------------
EXTENDS Fem, TLC, Json
CONSTANTS Depth, MaxCells,
          Asked         \* "space", "system" or "field"
VARIABLE path
mcvars == <<fvars, path>>
Log(op) == path' = Append(path, op)
Ask(op) == UNCHANGED fvars /\ Log(op)
R(s) == {RandomElement(s)}
RECURSIVE Flat(_, _)
Flat(q, n) == IF n = 0 THEN <<>> ELSE Flat(q, n - 1) \o q[n]
FlatAll(q) == Flat(q, Len(q))
MaxSource == IF N = 1 THEN 1 ELSE 4 - K
One3 == [i \in 1..(D + 1) |-> IF i = 1 THEN 1 ELSE 0]
Affines1 == {One3} \cup {[i \in 1..(D + 1) |-> IF i = k THEN 1 ELSE 0] : k \in 2..(D + 1)}
-----------------------------------------------------------------------------
\* every mesh of a few cells on a few nodes, any facets constrained, then a question
Grid == IF N = 1 THEN <<<<0>>, <<1>>, <<3>>, <<2>>>> ELSE <<<<0, 0>>, <<2, 0>>, <<0, 1>>, <<2, 2>>>>
Candidates == IF N = 1 THEN {<<1, 2>>, <<2, 4>>, <<4, 3>>, <<3, 1>>, <<2, 3>>}
              ELSE {<<1, 2, 3>>, <<3, 1, 2>>, <<2, 4, 3>>, <<4, 3, 2>>, <<1, 2, 4>>, <<2, 1, 3>>, <<4, 1, 3>>}
Done == path # <<>> /\ path[Len(path)][1] \notin {"node", "cell", "fix"}
Zero(n) == [i \in 1..n |-> 0]
MCInit == FInit /\ path = <<>>
MCNext ==
  IF Len(pos) < Len(Grid) THEN LET x == Grid[Len(pos) + 1] IN FNode(x) /\ Log(<<"node">> \o x)
  ELSE ~Done /\
    \/ Len(cells) < MaxCells /\ fixed = <<>> /\ \E c \in Candidates : FInsert(c) /\ Log(<<"cell">> \o c)
    \/ Asked # "field" /\ Len(fixed) < 2 /\ cells # <<>> /\ \E s \in Sides : LET f == SetToSeq(s) IN
         (\A i \in DOMAIN fixed : ToString(fixed[i]) # ToString(f)) /\ Fix(f) /\ Log(<<"fix">> \o f)
    \/ Asked = "space" /\ \E w \in (IF fixed = <<>> THEN {0, 1} ELSE {0}) : Ask(<<"space", w>>)
    \/ Asked = "system" /\ cells # <<>> /\ \E w \in (IF fixed = <<>> THEN {0, 1} ELSE {0}) :
         \/ \E m, s \in {0, 1} : Ask(<<"system", w, m, s, 0, m + s>>)
         \/ \E r \in 1..MaxSource : \E L \in [1..r -> Affines1] : fixed = <<>> /\ Ask(<<"system", w, 0, 1, r, 0>> \o FlatAll(L))
    \/ Asked = "field" /\ cells # <<>> /\ LET n == Len(Names) IN \E i \in 1..n : LET u == [Zero(n) EXCEPT ![i] = 1] IN
         \/ \E b \in Exps4 : Ask(<<"field">> \o b \o u)
         \/ \E h \in {0, 1} : (\A m \in DOMAIN cells : Volume(cells[m]) > 0) /\
              \/ \E r \in 1..K : \E L \in [1..r -> Affines1] : Ask(<<"norm", h, r>> \o u \o FlatAll(L))
              \/ Ask(<<"norm", h, -1>> \o u \o Zero(n))
MCSpec == MCInit /\ [][MCNext]_mcvars
EmitEdge == (path' # path /\ path'[Len(path')][1] \notin {"node", "cell", "fix"}) => PrintT("@" \o ToJson(path'))
EmitRun == IF TLCGet("level") = Depth /\ path # <<>> THEN PrintT("@" \o ToJson(path)) ELSE TRUE
-----------------------------------------------------------------------------
\* random meshes
RECURSIVE Choice(_, _)
Choice(set, n) == IF n = 0 \/ set = {} THEN <<>> ELSE LET x == RandomElement(set) IN <<x>> \o Choice(set \ {x}, n - 1)
RV(b) == [i \in Dim |-> RandomElement((-b)..b)]
Affine(b) == [i \in 1..(D + 1) |-> RandomElement((-b)..b)]
Values(n, b) == [i \in 1..n |-> RandomElement((-b)..b)]
Bary(t) == RandomElement(Exps4)
\* mostly oriented the same way
Oriented_(c) == IF \E i \in Nodes : c[i] \notin DOMAIN pos THEN c
                ELSE IF Volume(c) < 0 /\ RandomElement(1..8) # 1 THEN [c EXCEPT ![1] = c[2], ![2] = c[1]] ELSE c
FitsSystem(L) == \A m \in DOMAIN cells : LET P == OnCell(cells[m], L) IN \A a \in 1..NN : Abs(Source(cells[m], P, a)) < 300 * SourceDen(Len(L))
FitsNorm(L, u) == LET num == Numbers(Names) IN \A m \in DOMAIN cells : LET P == Elevate(OnCell(cells[m], L), K) IN
  /\ Volume(cells[m]) > 0
  /\ LET s == Slopes(cells[m]) IN SumTo([i \in Nodes |-> Dot(s[i], s[i])], N + 1) <= 12 * Volume(cells[m])
  /\ \A e \in DOMAIN P : Abs(P[e]) <= 6
Try(t) ==
  CASE t \in 1..3 -> Len(pos) < 7 /\ \E x \in {RV(3)} : (\A i \in DOMAIN pos : pos[i] # x) /\ FNode(x) /\ Log(<<"node">> \o x)
    [] t \in 4..6 -> Len(cells) < 5 /\ Len(pos) >= N + 1 /\ \E c0 \in {Choice(DOMAIN pos, N + 1)} : \E c \in {Oriented_(c0)} : FInsert(c) /\ Log(<<"cell">> \o c)
    [] t \in 7..8 -> Asked # "field" /\ cells # <<>> /\ Len(fixed) < 4 /\ \E s \in R(Sides) : \E f \in {Choice(s, N)} : Fix(f) /\ Log(<<"fix">> \o f)
    [] t \in 9..11 -> cells # <<>> /\
         IF Asked = "space" THEN \E w \in R({0, 0, 1}) : Ask(<<"space", w>>)
         ELSE IF Asked = "system" THEN \E w \in R({0, 0, 1}) : \E r \in R(0..MaxSource) : \E L \in {[i \in 1..r |-> Affine(2)]} : FitsSystem(L) /\
              \E m \in R(0..2) : \E s \in R(0..2) : \E z \in R(0..2) : Ask(<<"system", w, m, s, r, z>> \o FlatAll(L))
         ELSE \E h \in R(0..3) : LET n == Len(Names) IN \E u \in {Values(n, IF h > 1 THEN 3 ELSE 1)} : \E w \in {Values(n, 1)} :
              IF h > 1 THEN \E b \in {Bary(h)} : Ask(<<"field">> \o b \o u)
              ELSE \E r \in R({-1} \cup 1..K) : \E L \in {[i \in 1..r |-> Affine(1)]} : FitsNorm(L, u) /\
                   Ask(<<"norm", h, r>> \o u \o (IF r < 0 THEN w ELSE FlatAll(L)))
    [] OTHER -> FALSE
Options == (IF Len(pos) < 7 THEN 1..3 ELSE {}) \cup (IF Len(cells) < 5 /\ Len(pos) > N THEN 4..6 ELSE {})
           \cup (IF cells = <<>> THEN {} ELSE (IF Asked # "field" /\ Len(fixed) < 4 THEN 7..8 ELSE {}) \cup 9..11)
SimNext == \/ \E a \in 1..5 : \E t \in R(Options) : Try(t)
           \/ UNCHANGED mcvars   \* (lest a behaviour end early)
SimSpec == MCInit /\ [][SimNext]_mcvars
ElementaryOnce == path # <<>> /\ path[Len(path)][1] = "cell" => Elementary /\ Sloped
PartitionOnce == path = <<>> => Partition
=============================================================================
