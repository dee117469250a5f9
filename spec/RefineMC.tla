------------------------------ MODULE RefineMC ------------------------------
EXTENDS Refine, TLC, Json
CONSTANTS K,         \* midpoints of midpoints ... are taken up to K times
          MaxCells, MaxAfter, Depth
VARIABLES path, left \* the refinements still possible
mcvars == <<mesh, bsize, path, left>>
Log(op) == path' = Append(path, op)
U == Power(2, K)
RECURSIVE Perms(_)
Perms(s) == IF s = {} THEN {<<>>} ELSE UNION {{<<v>> \o q : q \in Perms(s \ {v})} : v \in s}
\* a mesh to choose cells from, by indices of the nodes
Grid ==
  CASE N = 1 -> {{<<i>>, <<i + 1>>} : i \in 0..4}
    [] N = 2 -> UNION {{{<<i, j>>, <<i + 1, j>>, <<i + 1, j + 1>>}, {<<i, j>>, <<i, j + 1>>, <<i + 1, j + 1>>}} : i, j \in 0..1}
    [] N = 3 -> UNION {{{[e \in 1..3 |-> o[e] + (IF \E n \in 1..m : p[n] = e THEN 1 ELSE 0)] : m \in 0..3} : p \in Perms({1, 2, 3})}
                       : o \in {<<0, 0, 0>>, <<1, 0, 0>>}}
\* and where these are
At(i) ==
  CASE N = 1 -> IF D = 1 THEN <<U * (3 * i[1] + (i[1] % 2))>> ELSE <<U * (2 * i[1] - 3), U * i[1] * i[1]>>
    [] N = 2 -> IF D = 2 THEN <<U * (3 * i[1] + i[2]), U * (2 * i[2] - i[1])>>
                ELSE <<U * (3 * i[1] + i[2]), U * (2 * i[2] - i[1]), U * (i[1] * i[1] + 2 * i[2])>>
    [] N = 3 -> <<U * (2 * i[1] - i[2]), U * (i[2] * 3 + i[3]), U * (i[3] + i[1])>>
Cells == {{At(i) : i \in s} : s \in Grid}
Taken == {Range(q) : q \in mesh}
MCInit == Init /\ path = <<>> /\ left = K
DoInsert(q) == /\ left = K /\ Cardinality(mesh) < MaxCells /\ Range(q) \notin Taken
               /\ Insert(q, BoundarySize(mesh \cup {q})) /\ Log(<<"insert", q>>) /\ UNCHANGED left
DoErase(q) == Erase(q, BoundarySize(mesh \ {q})) /\ Log(<<"erase", q>>) /\ UNCHANGED left
RECURSIVE Iter(_, _)
Iter(m, n) == IF n = 0 THEN m ELSE Iter(TLCEval(Halved(m)), n - 1)
DoRefine(n) == /\ n <= left /\ mesh # {} /\ Cardinality(mesh) * Power(2, N * n) <= MaxAfter
               /\ mesh' = Iter(mesh, n) /\ bsize' = bsize * Power(2, (N - 1) * n)
               /\ left' = left - n /\ Log(<<"refine", n>>)
MCNext == \/ left = K /\ \E s \in Cells : \E q \in Perms(s) : DoInsert(q)
          \/ left = K /\ \E q \in mesh : DoErase(q)
          \/ \E n \in 0..K : DoRefine(n)
MCSpec == MCInit /\ [][MCNext]_mcvars
View == vars
EmitEdge == PrintT("@" \o ToJson(path'))
EmitRun == IF Len(path) = Depth THEN PrintT("@" \o ToJson(path)) ELSE TRUE
R(s) == {RandomElement(s)}
SimNext ==
  IF Len(path) >= Depth - 4
  THEN IF Len(path) = Depth - 2 /\ Cardinality(mesh) > 1
       THEN \E q \in R(mesh) : Erase(q, 0) /\ Log(<<"nth", RandomElement(1..Cardinality(mesh))>>) /\ UNCHANGED left
       ELSE IF mesh = {} THEN \E s \in R(Cells) : \E q \in R(Perms(s)) : DoInsert(q)
       ELSE \E n \in R({k \in 0..left : Cardinality(mesh) * Power(2, N * k) <= MaxAfter}) : DoRefine(n)
  ELSE \E a \in 1..10 : \E t \in R(1..5) :
         IF t = 1 /\ Cardinality(mesh) > 1 THEN \E q \in R(mesh) : DoErase(q)
         ELSE \E s \in R(Cells) : \E q \in R(Perms(s)) : DoInsert(q)
SimSpec == MCInit /\ [][SimNext]_mcvars
-----------------------------------------------------------------------------
\* the example is a refinement, refinements of refinements are refinements, boundaries are refined along
Exemplary == [][left' < left => Refines(mesh, mesh', left - left') /\ bsize' = BoundarySize(mesh')]_mcvars
Halves == left = K /\ K > 0 => LET h == Halved(mesh) IN
  Refines(mesh, h, 1) /\ BoundarySize(h) = BoundarySize(mesh) * Power(2, N - 1)
\* nothing less will do
NotLess == left = K /\ mesh # {} => /\ \A q \in mesh : ~Refines(mesh, Halved(mesh) \ {CHOOSE x \in Halve(q) : TRUE}, 1)
                                    /\ ~Refines(mesh, mesh, 1)
                                    /\ ~Refines(mesh, Halved(mesh), 2)
=============================================================================
