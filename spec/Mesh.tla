-------------------------------- MODULE Mesh --------------------------------
(* mito::mesh: meshes of simplicial cells, their boundary and subcells.      *)
(*                                                                           *)
(* Nodes are numbered as they are created; a cell is a sequence of distinct  *)
(* nodes: its vertices in its orientation. Cells are numbered as they are    *)
(* inserted, across all meshes.                                              *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS N,       \* the dimension of the cells
          Meshes   \* names for meshes
VARIABLES nn,      \* nodes created so far
          nc,      \* cells inserted so far
          mesh     \* Meshes -> cells (number -> nodes), or NoMesh
vars == <<nn, nc, mesh>>
NoMesh == [live |-> FALSE, c |-> <<>>]
Live(m) == mesh[m].live
Of(m) == mesh[m].c
Init == nn = 0 /\ nc = 0 /\ mesh = [m \in Meshes |-> NoMesh]

Range(q) == {q[i] : i \in DOMAIN q}
Inv(q) == Cardinality({p \in (DOMAIN q) \X (DOMAIN q) : p[1] < p[2] /\ q[p[1]] > q[p[2]]})
Sign(q) == IF Inv(q) % 2 = 0 THEN 1 ELSE -1
Oriented(q) == [s |-> Range(q), o |-> Sign(q)]
Flip(x) == [x EXCEPT !.o = -@]
Facets(q) == IF Len(q) = 3 THEN << <<q[1], q[2]>>, <<q[2], q[3]>>, <<q[3], q[1]>> >>
             ELSE << <<q[1], q[2], q[3]>>, <<q[2], q[4], q[3]>>, <<q[4], q[2], q[1]>>, <<q[4], q[1], q[3]>> >>
FacetSet(q) == IF Len(q) = 2 THEN {[s |-> {q[1]}, o |-> -1], [s |-> {q[2]}, o |-> 1]}
               ELSE {Oriented(Facets(q)[i]) : i \in DOMAIN Facets(q)}
Distinct(q) == Cardinality(Range(q)) = Len(q)
IsCell(q) == Len(q) = N + 1 /\ Distinct(q) /\ Range(q) \subseteq 1..nn

\* the oriented facets of the cells of c, and how many cells have each
FacetCounts(c) ==
  LET fs == TLCEval([k \in DOMAIN c |-> FacetSet(c[k])])
      all == TLCEval(UNION {fs[k] : k \in DOMAIN c})
  IN TLCEval([x \in all |-> Cardinality({k \in DOMAIN c : x \in fs[k]})])
\* a facet is on the boundary if no two cells lie on either side of it
BoundaryOf(t) == {x \in DOMAIN t : Flip(x) \notin DOMAIN t}
\* the boundary has such a facet once for every cell there
RECURSIVE Sum(_, _)
Sum(f, s) == IF s = {} THEN 0 ELSE LET x == CHOOSE y \in s : TRUE IN f[x] + Sum(f, TLCEval(s \ {x}))
BoundarySize(t) == Sum(t, TLCEval(BoundaryOf(t)))
\* subcells with n nodes: how many chains of faces lead from a cell down to them
RECURSIVE Factorial(_)
Factorial(n) == IF n <= 1 THEN 1 ELSE n * Factorial(n - 1)
SubcellCount(c, s) == Factorial(N + 1 - Cardinality(s)) * Cardinality({k \in DOMAIN c : s \subseteq Range(c[k])})

Node == nn' = nn + 1 /\ UNCHANGED <<nc, mesh>>
NewMesh(m) == ~Live(m) /\ mesh' = [mesh EXCEPT ![m].live = TRUE] /\ UNCHANGED <<nn, nc>>
EndMesh(m) == Live(m) /\ mesh' = [mesh EXCEPT ![m] = NoMesh] /\ UNCHANGED <<nn, nc>>
\* a mesh is moved from m to k
MoveMesh(m, k) == Live(m) /\ ~Live(k) /\ mesh' = [mesh EXCEPT ![k] = mesh[m], ![m] = NoMesh]
                  /\ UNCHANGED <<nn, nc>>
Insert(m, q) == /\ Live(m) /\ IsCell(q)
                /\ nc' = nc + 1
                /\ mesh' = [mesh EXCEPT ![m].c = [k \in DOMAIN @ \cup {nc + 1} |-> IF k = nc + 1 THEN q ELSE Of(m)[k]]]
                /\ UNCHANGED nn
Only(c, s) == [k \in s |-> c[k]]
Erase(m, k) == /\ Live(m) /\ k \in DOMAIN Of(m)
               /\ mesh' = [mesh EXCEPT ![m].c = Only(@, DOMAIN @ \ {k})] /\ UNCHANGED <<nn, nc>>
\* erasing what is not there (any more) changes nothing
EraseNot(m, k) == Live(m) /\ k \notin DOMAIN Of(m) /\ UNCHANGED vars
\* of the cells that are the same by the key f, one remains
OneOfEach(c, s, f(_)) == /\ s \subseteq DOMAIN c
                         /\ \A k \in DOMAIN c : Cardinality({j \in s : f(c[j]) = f(c[k])}) = 1
EraseDuplicates(m, s, f(_)) == /\ Live(m) /\ OneOfEach(Of(m), s, f)
                               /\ mesh' = [mesh EXCEPT ![m].c = Only(@, s)] /\ UNCHANGED <<nn, nc>>
Topological(q) == Range(q)
Geometrical(q) == Oriented(q)
Least(s) == CHOOSE x \in s : \A y \in s : x <= y
FirstOfEach(c, f(_)) == {Least({j \in DOMAIN c : f(c[j]) = f(c[k])}) : k \in DOMAIN c}

RECURSIVE Perms(_)
Perms(s) == IF s = {} THEN {<<>>} ELSE UNION {{<<v>> \o q : q \in Perms(s \ {v})} : v \in s}
Cells == UNION {Perms(s) : s \in {t \in SUBSET (1..nn) : Cardinality(t) = N + 1}}
Next ==
  \/ Node
  \/ \E m \in Meshes :
       \/ NewMesh(m) \/ EndMesh(m) \/ \E k \in Meshes : MoveMesh(m, k)
       \/ \E q \in Cells : Insert(m, q)
       \/ \E k \in 1..nc : Erase(m, k) \/ EraseNot(m, k)
       \/ Live(m) /\ EraseDuplicates(m, FirstOfEach(Of(m), Topological), Topological)
       \/ Live(m) /\ EraseDuplicates(m, FirstOfEach(Of(m), Geometrical), Geometrical)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
TypeOK == \A m \in Meshes : Live(m) => \A k \in DOMAIN Of(m) : k \in 1..nc /\ IsCell(Of(m)[k])
\* a cell is in one mesh
Apart == \A m, n \in Meshes : m # n /\ Live(m) /\ Live(n) => DOMAIN Of(m) \cap DOMAIN Of(n) = {}
\* where no two cells overlap or meet at more than two, the boundary has no boundary
Manifold(t) == \A x \in DOMAIN t : t[x] = 1
EdgeCoef(b, y) == Cardinality({x \in b : y \in FacetSet(x)}) - Cardinality({x \in b : Flip(y) \in FacetSet(x)})
SeqOf(x) == CHOOSE q \in Perms(x.s) : Oriented(q) = x
BoundaryCloses == N > 1 => \A m \in Meshes : Live(m) =>
  LET t == FacetCounts(Of(m)) IN Manifold(t) =>
    LET b == TLCEval({SeqOf(x) : x \in BoundaryOf(t)}) IN
      \A y \in UNION {FacetSet(q) : q \in b} : EdgeCoef(b, y) = 0
\* the order in which the nodes of a cell are given, up to even permutations, is immaterial
EvenOrders == \A m \in Meshes : Live(m) => \A k \in DOMAIN Of(m) :
  \A q \in Perms(Range(Of(m)[k])) : Sign(q) = Sign(Of(m)[k]) => FacetSet(q) = FacetSet(Of(m)[k])
=============================================================================
