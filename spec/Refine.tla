------------------------------- MODULE Refine -------------------------------
(* mito::mesh::tetra: uniform refinement of meshes.                          *)
(*                                                                           *)
(* A node is the point where it is, in units fine enough for all midpoints   *)
(* to be integers; a cell is the sequence of its nodes. The cells of a mesh  *)
(* do not overlap. How cells are split is left open (there are three ways to *)
(* split a tetrahedron): any division in equal, equally oriented cells that  *)
(* match each other will do.                                                 *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS N,      \* dimension of the cells
          D       \* dimension of the space
VARIABLES mesh,   \* the cells
          bsize   \* how many facets are on the boundary
vars == <<mesh, bsize>>

Range(q) == {q[i] : i \in DOMAIN q}
Dir(q, i) == [j \in 1..D |-> q[i + 1][j] - q[1][j]]
\* the oriented volume of q, N! times, projected on the first N axes
Det(q) ==
  CASE N = 1 -> q[2][1] - q[1][1]
    [] N = 2 -> LET u == Dir(q, 1)  v == Dir(q, 2) IN u[1] * v[2] - u[2] * v[1]
    [] N = 3 -> LET u == Dir(q, 1)  v == Dir(q, 2)  w == Dir(q, 3) IN
                  u[1] * (v[2] * w[3] - v[3] * w[2]) - u[2] * (v[1] * w[3] - v[3] * w[1])
                  + u[3] * (v[1] * w[2] - v[2] * w[1])
Cell(q) == Len(q) = N + 1 /\ Det(q) # 0
\* barycentric coordinates of x in q, Det(q) times
Bary(q, x) == TLCEval([i \in 1..(N + 1) |-> Det([q EXCEPT ![i] = x])])
RECURSIVE Dot(_, _, _, _)
Dot(l, q, j, i) == IF i = 0 THEN 0 ELSE l[i] * q[i][j] + Dot(l, q, j, i - 1)
In(q, d, x, l) ==
  /\ \A i \in 1..(N + 1) : (d > 0 /\ l[i] >= 0) \/ (d < 0 /\ l[i] <= 0)
  /\ \A j \in (N + 1)..D : Dot(l, q, j, N + 1) = d * x[j]

Swap(f) == IF Len(f) = 1 THEN f ELSE [f EXCEPT ![1] = f[2], ![2] = f[1]]
Facets(q) == CASE N = 1 -> << <<q[1], -1>>, <<q[2], 1>> >>
               [] N = 2 -> << <<q[1], q[2]>>, <<q[2], q[3]>>, <<q[3], q[1]>> >>
               [] N = 3 -> << <<q[1], q[3], q[2]>>, <<q[1], q[2], q[4]>>, <<q[1], q[4], q[3]>>, <<q[2], q[3], q[4]>> >>
\* oriented facets in a canonical form
Same(f) == IF N < 3 THEN {f} ELSE {f, <<f[2], f[3], f[1]>>, <<f[3], f[1], f[2]>>}
FacetSet(q) == LET f == Facets(q) IN {Same(f[i]) : i \in DOMAIN f}
Opposite(F) == CASE N = 1 -> {<<f[1], -f[2]>> : f \in F}
                 [] OTHER -> {Swap(f) : f \in F}
Points(F) == LET f == CHOOSE g \in F : TRUE IN IF N = 1 THEN {f[1]} ELSE Range(f)

RECURSIVE Power(_, _)
Power(b, n) == IF n = 0 THEN 1 ELSE b * Power(b, n - 1)
\* the cells c divide the cell p in 2^n along each edge; bary are the coordinates of their nodes in it
Divides(p, c, n, bary) ==
  LET d == TLCEval(Det(p))
      fs == TLCEval([q \in c |-> FacetSet(q)])
      all == TLCEval(UNION {fs[q] : q \in c})
  IN /\ Cardinality(c) = Power(2, N * n)
     /\ \A q \in c : Det(q) * Power(2, N * n) = d
     \* no facet twice, every facet either matched or on a facet of p
     /\ Cardinality(all) = (N + 1) * Cardinality(c)
     /\ \A F \in all : Opposite(F) \in all \/ \E i \in 1..(N + 1) : \A x \in Points(F) : bary[x][i] = 0
\* which of the points x are in the cell p
Within(p, xs) ==
  LET d == TLCEval(Det(p))
      lo == CHOOSE y \in {z[1] : z \in Range(p)} : \A z \in Range(p) : y <= z[1]
      hi == CHOOSE y \in {z[1] : z \in Range(p)} : \A z \in Range(p) : y >= z[1]
      near == TLCEval({x \in xs : lo <= x[1] /\ x[1] <= hi})
  IN {x \in near : In(p, d, x, Bary(p, x))}
Refines(old, new, n) ==
  LET xs == TLCEval(UNION {Range(q) : q \in new}) IN
  /\ Cardinality(new) = Cardinality(old) * Power(2, N * n)
  /\ \A p \in old : LET ins == TLCEval(Within(p, xs))
                        c == TLCEval({q \in new : \A i \in 1..(N + 1) : q[i] \in ins})
                    IN Divides(p, c, n, TLCEval([x \in ins |-> Bary(p, x)]))
  /\ UNION {Range(p) : p \in old} \subseteq xs
BoundarySize(m) ==
  LET all == TLCEval(UNION {FacetSet(q) : q \in m}) IN
    Cardinality({F \in all : Opposite(F) \notin all})

Init == mesh = {} /\ bsize = 0
Insert(q, b) == Cell(q) /\ mesh' = mesh \cup {q} /\ bsize' = b
Erase(q, b) == q \in mesh /\ mesh' = mesh \ {q} /\ bsize' = b
\* the boundary is refined along
Refine(n, new) == Refines(mesh, new, n) /\ mesh' = new /\ bsize' = bsize * Power(2, (N - 1) * n)

\* one way to do it, as an example
Mid(a, b) == [j \in 1..D |-> (a[j] + b[j]) \div 2]
Halve(q) ==
  CASE N = 1 -> LET m == Mid(q[1], q[2]) IN {<<q[1], m>>, <<m, q[2]>>}
    [] N = 2 -> LET a == Mid(q[1], q[2])  b == Mid(q[2], q[3])  c == Mid(q[3], q[1]) IN
                  {<<q[1], a, c>>, <<a, q[2], b>>, <<c, b, q[3]>>, <<a, b, c>>}
    [] N = 3 -> LET m == [p \in {x \in (1..4) \X (1..4) : x[1] < x[2]} |-> Mid(q[p[1]], q[p[2]])]
                    a == m[<<1, 2>>]  b == m[<<1, 3>>]  c == m[<<1, 4>>]
                    d == m[<<2, 3>>]  e == m[<<2, 4>>]  f == m[<<3, 4>>] IN
                  {<<q[1], a, b, c>>, <<a, q[2], d, e>>, <<b, d, q[3], f>>, <<c, e, f, q[4]>>,
                   <<a, b, c, e>>, <<a, d, b, e>>, <<b, d, f, e>>, <<b, c, e, f>>}
Halved(m) == UNION {Halve(q) : q \in m}
-----------------------------------------------------------------------------
TypeOK == \A q \in mesh : Cell(q)
=============================================================================
