------------------------------ MODULE Refusals ------------------------------
(* What makes no sense is refused, and nothing comes of it: simplices whose  *)
(* facets do not close up, points in two places, cells whose nodes are not   *)
(* those of their simplex, values at nodes where a field has none, and so on.*)
(*                                                                           *)
(* An attempt is made apart: it tells whether the operation is carried out   *)
(* or refused, and leaves everything as it was. What is carried out must be  *)
(* exactly what the specification allows.                                    *)
EXTENDS Topology
CONSTANTS Frames, Fields
VARIABLES at,      \* Frames -> point -> coordinates, or Nowhere
          field,   \* Fields -> point -> value, or None
          cells    \* the triangles inserted in the mesh, by their nodes
rvars == <<vars, at, field, cells>>
Nowhere == <<>>
None == -1000
RInit == Init /\ at = [c \in Frames |-> [p \in 1..V |-> Nowhere]] /\ field = [f \in Fields |-> [p \in 1..V |-> None]] /\ cells = <<>>
Nodes == 1..nv
Things == <<at, field, cells>>
\* a node is a vertex and a point
Node == Vertex /\ UNCHANGED Things
Simplex(k, q) == Create(k, q) /\ UNCHANGED Things
Oriented0(k, v, o) == OVertex(k, v, o) /\ UNCHANGED Things
Flipped(k, j) == FlipOf(k, j) /\ UNCHANGED Things
Place(c, p, x) == /\ p \in Nodes /\ at[c][p] = Nowhere /\ at' = [at EXCEPT ![c][p] = x]
                  /\ UNCHANGED <<vars, field, cells>>
Fill(f, p, x) == /\ p \in Nodes /\ field[f][p] = None /\ field' = [field EXCEPT ![f][p] = x]
                 /\ UNCHANGED <<vars, at, cells>>
Write(f, p, x) == /\ p \in Nodes /\ field[f][p] # None /\ field' = [field EXCEPT ![f][p] = x]
                  /\ UNCHANGED <<vars, at, cells>>
Insert(q) == /\ Len(q) = 3 /\ Range(q) \subseteq vh /\ Cardinality(Range(q)) = 3
             /\ Becomes(Make(C, q)) /\ cells' = Append(cells, q) /\ UNCHANGED <<nv, vh, h, at, field>>
-----------------------------------------------------------------------------
Bound(k) == h[k] # Null
SameDim(j) == \A i \in DOMAIN j : Bound(j[i]) /\ Dim(h[j[i]].s) = Len(j) - 2
Triangle(k) == Bound(k) /\ Dim(h[k].s) = 2
\* what can be asked at all, and whether it makes sense
Askable(what, a) ==
  CASE what = "compose" -> Len(a) \in 2..4 /\ SameDim(a)
    [] what = "vertices" -> Len(a) \in 2..4 /\ Range(a) \subseteq vh
    [] what = "diagonal" -> Len(a) = 2 /\ Triangle(a[1]) /\ Triangle(a[2])
    [] what \in {"place", "where"} -> a[1] \in Frames /\ a[2] \in Nodes
    [] what \in {"fill", "read", "write"} -> a[1] \in Fields /\ a[2] \in Nodes
    [] what = "cell" -> Bound(a[1]) /\ Dim(h[a[1]].s) \in 1..3 /\ Len(a) = Dim(h[a[1]].s) + 2 /\ Range(Tail(a)) \subseteq Nodes
    [] what = "side" -> Bound(a[1]) /\ Dim(h[a[1]].s) = 1
    [] what = "file" -> a[1] \in 1..5
Sense(what, a) ==
  CASE what = "compose" -> ComposedOf(a)
    [] what = "vertices" -> Cardinality(Range(a)) = Len(a)
    [] what = "diagonal" -> Flippable(h[a[1]], h[a[2]])
    [] what = "place" -> at[a[1]][a[2]] = Nowhere
    [] what = "where" -> at[a[1]][a[2]] # Nowhere
    [] what = "fill" -> field[a[1]][a[2]] = None
    [] what \in {"read", "write"} -> field[a[1]][a[2]] # None
    \* the nodes are those of the simplex, in an order of its orientation
    [] what = "cell" -> Cardinality(Range(Tail(a))) = Len(a) - 1 /\ Oriented(Tail(a)) = h[a[1]]
    \* only the sides of the cells of a mesh can be on its boundary
    [] what = "side" -> \E i \in DOMAIN cells : h[a[1]].s \subseteq Range(cells[i])
    \* 1 a mesh; 2 no file; 3 of another dimension; 4 fewer cells than announced; 5 cells of another shape
    [] what = "file" -> a[1] = 1
Outcome(what, a) == IF Sense(what, a) THEN "done" ELSE "refused"
Try(what, a) == Askable(what, a) /\ UNCHANGED rvars
-----------------------------------------------------------------------------
RTypeOK == /\ \A c \in Frames, p \in 1..V : at[c][p] = Nowhere \/ (Len(at[c][p]) = 2 /\ p \in Nodes)
           /\ \A f \in Fields, p \in 1..V : field[f][p] # None => p \in Nodes
           /\ \A i \in DOMAIN cells : Range(cells[i]) \subseteq Nodes
\* of all lists of facets of one or two simplices, those that compose a simplex are its boundary, in any order
ClosesUp == \A j \in Handles \X Handles \X Handles :
  (\A i \in 1..3 : Bound(j[i]) /\ Dim(h[j[i]].s) = 1) =>
    LET c == {h[j[i]] : i \in 1..3} IN
    ComposedOf(j) = (Cardinality(c) = 3 /\ Cardinality(VerticesAt(j)) = 3 /\ \A v \in VerticesAt(j) : Coef(c, [s |-> {v}, o |-> 1]) = 0)
=============================================================================
