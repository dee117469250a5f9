------------------------------ MODULE Topology ------------------------------
(* mito::topology: the complex of oriented simplices.                       *)
(*                                                                          *)
(* Vertices are numbered as they are created. A simplex (footprint) is its  *)
(* vertex set; an oriented simplex adds a sign: +1 for the orientation of   *)
(* the vertices in increasing order and its even permutations, -1 for the   *)
(* others. A footprint remembers the orientation it was first created in    *)
(* (its base), which fixes the oriented facets it is composed of.           *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS Handles,
          V       \* the largest number a vertex can have

VARIABLES nv,     \* vertices created so far
          vh,     \* vertices the user holds a handle of
          fp,     \* footprints of dimension 1..3 -> base sign
          reg,    \* registered oriented simplices, [s |-> vertex set, o |-> sign]
          h       \* Handles -> oriented simplex or Null

vars == <<nv, vh, fp, reg, h>>
Null == [s |-> {}, o |-> 0]
Init == nv = 0 /\ vh = {} /\ fp = <<>> /\ reg = {} /\ h = [k \in Handles |-> Null]

Range(q) == {q[i] : i \in DOMAIN q}
Dim(s) == Cardinality(s) - 1
\* parity of a sequence of distinct numbers
Inv(q) == Cardinality({p \in (DOMAIN q) \X (DOMAIN q) : p[1] < p[2] /\ q[p[1]] > q[p[2]]})
Sign(q) == IF Inv(q) % 2 = 0 THEN 1 ELSE -1
Oriented(q) == [s |-> Range(q), o |-> Sign(q)]
Flip(x) == [x EXCEPT !.o = -@]

\* the facets of the simplex with vertices q, as vertex sequences, in the order of its composition
Facets(q) == IF Len(q) = 3 THEN << <<q[1], q[2]>>, <<q[2], q[3]>>, <<q[3], q[1]>> >>
             ELSE << <<q[1], q[2], q[3]>>, <<q[2], q[4], q[3]>>, <<q[4], q[2], q[1]>>, <<q[4], q[1], q[3]>> >>
\* oriented facets; a segment has a tail (-1) and a head (+1)
Tip(v, o) == [s |-> {v}, o |-> o]
FacetSet(q) == IF Len(q) = 2 THEN {Tip(q[1], -1), Tip(q[2], 1)}
               ELSE {Oriented(Facets(q)[i]) : i \in DOMAIN Facets(q)}
\* some vertex sequence with a given orientation
RECURSIVE Sorted(_)
Sorted(s) == IF s = {} THEN <<>>
             ELSE LET m == CHOOSE v \in s : \A w \in s : v <= w IN <<m>> \o Sorted(s \ {m})
SeqOf(s, o) == LET q == Sorted(s) IN
  IF o = 1 THEN q ELSE [q EXCEPT ![1] = q[2], ![2] = q[1]]
\* the simplices there can be (tables: evaluated once)
Simplices == TLCEval({s \in SUBSET (1..V) : Cardinality(s) \in 2..4})
SeqTable == TLCEval([s \in Simplices |-> TLCEval([o \in {-1, 1} |-> SeqOf(s, o)])])
CompTable == TLCEval([s \in Simplices |-> TLCEval([o \in {-1, 1} |-> TLCEval(FacetSet(SeqTable[s][o]))])])
\* what the footprint s with base sign b is composed of
Comp(s, b) == CompTable[s][b]

Holders(r, f, hh, x) == Cardinality({k \in Handles : hh[k] = x})
                        + Cardinality({s \in DOMAIN f : x \in Comp(s, f[s])})
Refs(x) == Holders(reg, fp, h, x)

\* the coefficient of y in the boundary of the chain c
Holds(x, y) == Dim(x.s) > 0 /\ y \in Comp(x.s, x.o)
Coef(c, y) == Cardinality({x \in c : Holds(x, y)}) - Cardinality({x \in c : Holds(x, Flip(y))})

\* ---------------------------------------------------------------- creation
\* [f, r]: footprints and registered simplices
Register(c, x) == [c EXCEPT !.r = @ \cup {x}]
AddFp(c, q) == IF Range(q) \in DOMAIN c.f THEN c
               ELSE [c EXCEPT !.f = [s \in DOMAIN @ \cup {Range(q)} |-> IF s = Range(q) THEN Sign(q) ELSE c.f[s]]]
RECURSIVE Make(_, _), MakeAll(_, _, _)
\* the simplex with the vertices q, after the simplices it is made of
Make(c, q) ==
  IF Len(q) = 2
    THEN Register(AddFp(Register(Register(c, Tip(q[1], -1)), Tip(q[2], 1)), q), Oriented(q))
    ELSE Register(AddFp(TLCEval(MakeAll(c, TLCEval(Facets(q)), 1)), q), Oriented(q))
MakeAll(c, fs, i) == IF i > Len(fs) THEN c ELSE MakeAll(TLCEval(Make(c, fs[i])), fs, i + 1)

C == [f |-> fp, r |-> reg]
Becomes(cc) == LET c == TLCEval(cc) IN fp' = c.f /\ reg' = c.r
Bind(k, x) == h' = [h EXCEPT ![k] = x]

Vertex == nv' = nv + 1 /\ vh' = vh \cup {nv + 1} /\ UNCHANGED <<fp, reg, h>>
DropVertex(v) == v \in vh /\ vh' = vh \ {v} /\ UNCHANGED <<nv, fp, reg, h>>
\* an oriented vertex
OVertex(k, v, o) == /\ v \in vh /\ o \in {-1, 1}
                    /\ Becomes(Register(C, Tip(v, o))) /\ Bind(k, Tip(v, o)) /\ UNCHANGED <<nv, vh>>
\* a simplex from its vertices, in order
Create(k, q) == /\ Len(q) \in 2..4 /\ Range(q) \subseteq vh /\ Cardinality(Range(q)) = Len(q)
                /\ Becomes(Make(C, q)) /\ Bind(k, Oriented(q)) /\ UNCHANGED <<nv, vh>>
\* a set of facets, those in m turned over, is a valid composition if they close up
Candidate(q, m) == LET fs == Facets(q)
                       c == TLCEval(MakeAll(C, fs, 1))
                   IN [c EXCEPT !.r = @ \cup {Flip(Oriented(fs[i])) : i \in m}]
Validate(q, m) == /\ Len(q) \in 3..4 /\ Range(q) \subseteq vh /\ Cardinality(Range(q)) = Len(q)
                  /\ m \subseteq DOMAIN q
                  /\ Becomes(Candidate(q, m)) /\ UNCHANGED <<nv, vh, h>>
IsValid(q, m) == LET c == {Oriented(Facets(q)[i]) : i \in DOMAIN q \ m} \cup {Flip(Oriented(Facets(q)[i])) : i \in m} IN
  \A t \in {u \in SUBSET Range(q) : Cardinality(u) = Len(q) - 2} :
    Coef(c, [s |-> t, o |-> 1]) = 0
\* a simplex from the handles j of its facets, in any order: the facets of a simplex in either
\* orientation may be listed, and the order they are listed in decides which orientation is meant
FacetsAt(j) == {h[j[i]] : i \in DOMAIN j}
VerticesAt(j) == UNION {h[j[i]].s : i \in DOMAIN j}
ComposedOf(j) == /\ \A i \in DOMAIN j : h[j[i]] # Null /\ Dim(h[j[i]].s) = Len(j) - 2
                 /\ VerticesAt(j) \in Simplices /\ Cardinality(VerticesAt(j)) = Len(j)
                 /\ \E b \in {-1, 1} : FacetsAt(j) = Comp(VerticesAt(j), b)
MissingAt(j, i) == CHOOSE v \in VerticesAt(j) : v \notin h[j[i]].s
OrderSign(j) == LET o == Sign([i \in DOMAIN j |-> MissingAt(j, i)]) IN IF Len(j) = 2 THEN -o ELSE o
Compose(k, j) == /\ ComposedOf(j)
                 /\ LET s == VerticesAt(j)
                        b == CHOOSE x \in {-1, 1} : FacetsAt(j) = Comp(s, x)
                        y == [s |-> s, o |-> OrderSign(j)]
                    IN Becomes(Register(AddFp(C, SeqTable[s][b]), y)) /\ Bind(k, y)
                 /\ UNCHANGED <<nv, vh>>
\* the same from the composition of a simplex at hand
Recompose(k, j) == /\ h[j] # Null /\ Dim(h[j].s) > 0
                   /\ Bind(k, h[j]) /\ UNCHANGED <<nv, vh, fp, reg>>
FlipOf(k, j) == /\ h[j] # Null
                /\ Becomes(Register(C, Flip(h[j]))) /\ Bind(k, Flip(h[j])) /\ UNCHANGED <<nv, vh>>
Copy(k, j) == Bind(k, h[j]) /\ UNCHANGED <<nv, vh, fp, reg>>
Drop(k) == Bind(k, Null) /\ UNCHANGED <<nv, vh, fp, reg>>
\* the facet opposite to vertex v
FaceOf(x, v) == CHOOSE y \in Comp(x.s, fp[x.s]) : y.s = x.s \ {v}
Face(k, j, v) == /\ h[j] # Null /\ Dim(h[j].s) > 0 /\ v \in h[j].s
                 /\ Bind(k, FaceOf(h[j], v)) /\ UNCHANGED <<nv, vh, fp, reg>>

\* two triangles on either side of an edge, turned the same way around, are replaced by those on either
\* side of the other diagonal of their quadrilateral: with the same boundary
Shared(x, y) == x.s \cap y.s
Flippable(x, y) == /\ Cardinality(x.s) = 3 /\ Cardinality(y.s) = 3 /\ Cardinality(Shared(x, y)) = 2
                   /\ \E e \in Comp(x.s, x.o) : e.s = Shared(x, y) /\ Flip(e) \in Comp(y.s, y.o)
\* <<u, p, q>> and <<w, q, p>>
QuadOf(x, y) == CHOOSE z \in UNION {{<<u, pp, w, qq>> : pp \in Shared(x, y), qq \in Shared(x, y)} : u \in x.s \ y.s, w \in y.s \ x.s} :
                  z[2] # z[4] /\ Oriented(<<z[1], z[2], z[4]>>) = x
Diagonal(z) == <<z[1], z[3]>>
NewPair(z) == {Oriented(<<z[1], z[2], z[3]>>), Oriented(<<z[3], z[4], z[1]>>)}
\* the diagonal is first created in the direction dir
DiagonalFlipped(z, dir) ==
  LET d == IF dir = 1 THEN <<z[1], z[3]>> ELSE <<z[3], z[1]>>
      c0 == [C EXCEPT !.r = @ \cup {Oriented(<<z[i], z[(i % 4) + 1]>>) : i \in 1..4}]
      c1 == TLCEval(Make(c0, d))
      c2 == TLCEval(Make(c1, <<d[2], d[1]>>))
      c3 == Register(AddFp(c2, <<z[1], z[2], z[3]>>), Oriented(<<z[1], z[2], z[3]>>))
  IN Register(AddFp(c3, <<z[3], z[4], z[1]>>), Oriented(<<z[3], z[4], z[1]>>))
\* (the new triangle with the first vertex of the old edge is bound to k)
FlipDiagonal(a, b, k, j, dir) ==
  /\ h[a] # Null /\ h[b] # Null /\ k # j /\ Flippable(h[a], h[b])
  /\ LET z == TLCEval(QuadOf(h[a], h[b]))
         t1 == Oriented(<<z[1], z[2], z[3]>>)
         t2 == Oriented(<<z[3], z[4], z[1]>>)
         swap == z[2] > z[4]
     IN /\ Becomes(DiagonalFlipped(z, dir))
        /\ h' = [h EXCEPT ![k] = IF swap THEN t2 ELSE t1, ![j] = IF swap THEN t1 ELSE t2]
  /\ UNCHANGED <<nv, vh>>

\* ---------------------------------------------------------------- erasure
\* registered simplices in the closure of x
RECURSIVE Closure(_)
Closure(x) == IF Dim(x.s) = 0 THEN {} ELSE
  LET c == Comp(x.s, fp[x.s]) IN c \cup UNION {Closure(y) : y \in c}
\* remove from the candidates what nobody holds, until all that remain are held
RECURSIVE Collect(_, _, _, _)
Collect(f, r, hh, cand) ==
  LET gone == {x \in cand : x \in r /\ Holders(r, f, hh, x) = 0}
      r2 == r \ gone
      f2 == [s \in {t \in DOMAIN f : \E o \in {-1, 1} : [s |-> t, o |-> o] \in r2} |-> f[s]]
  IN IF gone = {} THEN [f |-> f, r |-> r] ELSE Collect(f2, r2, hh, cand \ gone)
Erase(k) ==
  /\ h[k] # Null /\ Refs(h[k]) = 1
  /\ LET hh == [h EXCEPT ![k] = Null]
         c == Collect(fp, reg, hh, {h[k]} \cup Closure(h[k]))
     IN Becomes(c) /\ h' = hh
  /\ UNCHANGED <<nv, vh>>
EraseNot(k) == (h[k] = Null \/ Refs(h[k]) > 1) /\ UNCHANGED vars

\* ---------------------------------------------------------------- observations
NSimplices(n) == Cardinality({x \in reg : Dim(x.s) = n})
Exists(x) == x \in reg
ExistsFlipped(x) == Flip(x) \in reg

RECURSIVE Perms(_)
Perms(s) == IF s = {} THEN {<<>>} ELSE UNION {{<<v>> \o q : q \in Perms(s \ {v})} : v \in s}
PermTable == TLCEval([s \in Simplices |-> TLCEval(Perms(s))])
Arrangements(s, n) == UNION {PermTable[t] : t \in {u \in Simplices : Cardinality(u) = n /\ u \subseteq s}}

Next ==
  \/ Vertex \/ \E v \in vh : DropVertex(v)
  \/ \E k \in Handles :
       \/ \E v \in vh, o \in {-1, 1} : OVertex(k, v, o)
       \/ \E n \in 2..4 : \E q \in Arrangements(vh, n) : Create(k, q)
       \/ \E n \in 2..4 : \E j \in [1..n -> Handles] : Compose(k, j)
       \/ \E j \in Handles : Recompose(k, j) \/ FlipOf(k, j) \/ Copy(k, j) \/ (h[j] # Null /\ \E v \in h[j].s : Face(k, j, v))
       \/ \E j, a, b \in Handles, dir \in {-1, 1} : FlipDiagonal(a, b, k, j, dir)
       \/ Drop(k) \/ Erase(k) \/ EraseNot(k)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
TypeOK == /\ nv \in Nat /\ vh \subseteq 1..nv
          /\ \A x \in reg : x.o \in {-1, 1} /\ x.s \subseteq 1..nv /\ Cardinality(x.s) \in 1..4
\* every handle is bound to a registered simplex
NoDangling == \A k \in Handles : h[k] # Null => h[k] \in reg
\* the complex is closed: footprints exactly where there are oriented simplices, all facets there
Closed == /\ \A x \in reg : Dim(x.s) > 0 => x.s \in DOMAIN fp
          /\ \A s \in DOMAIN fp : /\ \E o \in {-1, 1} : [s |-> s, o |-> o] \in reg
                                  /\ Comp(s, fp[s]) \subseteq reg

\* facets cancel: the boundary of a boundary is nothing
Coefficient(s, b, y) == Coef(Comp(s, b), y)
BoundaryOfBoundary == \A s \in Simplices : \A b \in {-1, 1} : Dim(s) > 1 =>
  \A t \in SUBSET s : Cardinality(t) = Cardinality(s) - 2 =>
    Coefficient(s, b, [s |-> t, o |-> 1]) = 0
\* the orientation does not depend on which even permutation of the vertices is used
PermutationsAgree == \A s \in Simplices : \A q \in PermTable[s] : FacetSet(q) = Comp(s, Sign(q))
\* a simplex and its flip have no facet in common, and the same footprints
FlipsFacets == \A s \in Simplices : Comp(s, -1) = {Flip(x) : x \in Comp(s, 1)}
\* flipping a diagonal keeps the boundary, and flipping it back gives the triangles back
BothTriangles == {[s |-> t, o |-> o] : t \in {u \in Simplices : Cardinality(u) = 3}, o \in {-1, 1}}
DiagonalKeepsBoundary == \A x, y \in BothTriangles : Flippable(x, y) =>
  LET n == NewPair(QuadOf(x, y)) IN
    /\ \A e \in {u \in Simplices : Cardinality(u) = 2} :
          Coef(n, [s |-> e, o |-> 1]) = Coef({x, y}, [s |-> e, o |-> 1])
    /\ \A a, b \in n : a # b => Flippable(a, b) /\ NewPair(QuadOf(a, b)) = {x, y}
\* listing the facets of a vertex sequence in order means the simplex with that sequence
OrderMeansOrientation == \A s \in Simplices : Cardinality(s) > 2 => \A q \in PermTable[s] :
  Sign([i \in DOMAIN q |-> CHOOSE v \in s : v \notin Range(Facets(q)[i])]) = Sign(q)
ASSUME V <= 5 => OrderMeansOrientation
ASSUME V <= 5 => DiagonalKeepsBoundary
ASSUME V <= 5 => BoundaryOfBoundary /\ PermutationsAgree /\ FlipsFacets
\* nothing in use ever goes away
UsedStays == [][\A x \in reg : (Refs(x) > 0 /\ \E k \in Handles : h'[k] = x) => x \in reg']_vars
FacetsStay == [][\A s \in DOMAIN fp' : Comp(s, fp'[s]) \subseteq reg']_vars
BaseStays == [][\A s \in DOMAIN fp \cap DOMAIN fp' : fp[s] = fp'[s]]_vars
=============================================================================
