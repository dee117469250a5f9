------------------------------ MODULE Measure ------------------------------
(* The measure of what a mesh of cells of dimension N in dimension D covers, and the integrals of
   polynomials on it. Nodes are at integer positions. When N < D the measure is that which the
   volume form leaves to the directors of the cells once it is given D - N vectors. (P28, P31) *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS N, D
VARIABLES pos,      \* positions of the nodes
          cells     \* cells: sequences of nodes
vars == <<pos, cells>>
Dim == 1..D
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
RECURSIVE ProductTo(_, _)
ProductTo(f, n) == IF n = 0 THEN 1 ELSE f[n] * ProductTo(f, n - 1)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Sub(u, v) == [i \in Dim |-> u[i] - v[i]]
Det(m) == CASE D = 1 -> m[1][1]
            [] D = 2 -> m[1][1] * m[2][2] - m[1][2] * m[2][1]
            [] D = 3 -> m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2])
                      - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
                      + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
Axis(k) == [i \in Dim |-> IF i = k THEN 1 ELSE 0]
Directors(c) == [i \in 1..(Len(c) - 1) |-> Sub(pos[c[i + 1]], pos[c[1]])]
\* (Len(c) - 1)! times the measure of the cell c, the volume form being given the vectors n
Content(c, n) == Det(n \o Directors(c))
Volume(c) == Content(c, <<>>)
-----------------------------------------------------------------------------
(* Polynomials are products of affine functions <<a0, a1 ... aD>>. The integral of a product of r
   affine functions on a cell of dimension d is d! r'/(d + r)! of its measure, r' being the sum,
   over the ways to choose a node for each function, of the products of the values there times
   the factorials of how often each node is chosen. *)
Value(a, x) == a[1] + SumTo([i \in Dim |-> a[i + 1] * x[i]], D)
Maps(r, d) == [1..r -> 1..(d + 1)]
Times(f, d) == [v \in 1..(d + 1) |-> Fact(Cardinality({i \in DOMAIN f : f[i] = v}))]
RECURSIVE SumOn(_, _)
SumOn(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOn(S \ {x}, f)
Moment(c, L) ==
  LET d == Len(c) - 1
      r == Len(L)
      val == [i \in 1..r |-> [v \in 1..(d + 1) |-> Value(L[i], pos[c[v]])]]
      m == Maps(r, d)
  IN SumOn(m, [f \in m |-> ProductTo([i \in 1..r |-> val[i][f[i]]], r) * ProductTo(Times(f, d), d + 1)])
\* (Len(c) - 1 + Len(L))! times the integral
Integral(c, n, L) == Content(c, n) * Moment(c, L)
RECURSIVE Over(_, _, _, _)
Over(cs, n, L, k) == IF k = 0 THEN 0 ELSE Integral(cs[k], n, L) + Over(cs, n, L, k - 1)
OnMesh(n, L) == Over(cells, n, L, Len(cells))
\* its denominator
Whole(d, r) == Fact(d + r)
-----------------------------------------------------------------------------
\* what a cell has for boundary: its facets, every other one turned around; those of triangles go
\* round them so that the flux is outward, those of tetrahedra so that it is inward (see Topology)
Side == IF N = 3 THEN -1 ELSE 1
Facets(c) == [i \in 1..Len(c) |-> RemoveAt(c, i)]
Flux(c, k, L) == Side * SumTo([i \in 1..Len(c) |-> (IF i % 2 = 1 THEN 1 ELSE -1) * Integral(Facets(c)[i], <<Axis(k)>>, L)], Len(c))
RECURSIVE FluxTo(_, _, _)
FluxTo(k, L, m) == IF m = 0 THEN 0 ELSE Flux(cells[m], k, L) + FluxTo(k, L, m - 1)
OutOfMesh(k, L) == FluxTo(k, L, Len(cells))
\* the orientation of a facet: its nodes, and a sign
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
Inversions(s) == Cardinality({p \in (DOMAIN s) \X (DOMAIN s) : p[1] < p[2] /\ s[p[1]] > s[p[2]]})
Oriented(c) == {<<Sorted(Facets(c)[i]), (i + Inversions(Facets(c)[i])) % 2>> : i \in 1..Len(c)}
-----------------------------------------------------------------------------
Init == pos = <<>> /\ cells = <<>>
Node(x) == pos' = Append(pos, x) /\ UNCHANGED cells
\* cells lie on either side of a facet, at most
Insert(c) == /\ Len(c) = N + 1 /\ \A i \in 1..Len(c) : c[i] \in DOMAIN pos
             /\ Cardinality({c[i] : i \in 1..Len(c)}) = Len(c)
             /\ \A m \in DOMAIN cells : ToSet(cells[m]) # ToSet(c) /\ (N > 1 => Oriented(cells[m]) \cap Oriented(c) = {})
             /\ cells' = Append(cells, c) /\ UNCHANGED pos
TypeOK == \A m \in DOMAIN cells : Len(cells[m]) = N + 1 /\ ToSet(cells[m]) \subseteq DOMAIN pos
-----------------------------------------------------------------------------
\* the theorem of the divergence, on products of two functions out of few
One == [i \in 1..(D + 1) |-> IF i = 1 THEN 1 ELSE 0]
Some == {One} \cup {[i \in 1..(D + 1) |-> IF i = 1 THEN 1 ELSE IF i = k + 1 THEN 1 ELSE 0] : k \in Dim}
Divergence == N = D /\ N > 1 => \A k \in Dim : \A a, b \in Some :
  Side * OutOfMesh(k, <<a, b>>) = a[k + 1] * OnMesh(<<>>, <<b>>) + b[k + 1] * OnMesh(<<>>, <<a>>)
\* a cell is turned around with any two of its nodes
Turns == \A m \in DOMAIN cells : N = D =>
  LET c == cells[m] IN \A i, j \in 1..(N + 1) : i < j => Volume([c EXCEPT ![i] = c[j], ![j] = c[i]]) = -Volume(c)
=============================================================================
