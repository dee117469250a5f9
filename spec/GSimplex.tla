------------------------------ MODULE GSimplex ------------------------------
(* mito::geometry: geometric simplices, on top of the topological complex.   *)
(*                                                                           *)
(* A node joins a vertex to a point; several nodes may share a vertex or a   *)
(* point. A geometric simplex is an oriented simplex together with one node  *)
(* for each of its vertices, listed in an order of its orientation. (The     *)
(* handles of module Topology are here the handles of geometric simplices.)  *)
EXTENDS Topology
CONSTANTS D         \* dimension of space
VARIABLES np,       \* points created so far
          node,     \* the nodes, <<vertex, point>>
          g         \* Handles -> set of nodes
gvars == <<vars, np, node, g>>
GInit == Init /\ np = 0 /\ node = <<>> /\ g = [k \in Handles |-> {}]

VertexOf(n) == node[n][1]
PointOf(n) == node[n][2]
VerticesOf(q) == [i \in DOMAIN q |-> VertexOf(q[i])]
Bigger(a, b) == IF a > b THEN a ELSE b
\* a node of a vertex and a point, either of which may be new
Node(v, p) == /\ v \in 1..(nv + 1) /\ p \in 1..(np + 1)
              /\ nv' = Bigger(nv, v) /\ vh' = 1..nv' /\ np' = Bigger(np, p) /\ node' = Append(node, <<v, p>>)
              /\ UNCHANGED <<fp, reg, h, g>>
\* a new point alone
Point == np' = np + 1 /\ UNCHANGED <<vars, node, g>>
Attach(k, s) == g' = [g EXCEPT ![k] = s] /\ UNCHANGED <<np, node>>
Placed(q) == /\ Len(q) \in 2..(D + 1) /\ Cardinality(Range(VerticesOf(q))) = Len(q)
\* from nodes, in order
Build(k, q) == Placed(q) /\ Create(k, VerticesOf(q)) /\ Attach(k, Range(q))
\* on the oriented simplex requested with its vertices in another order, r, of the same parity
BuildOn(k, q, r) == /\ Placed(q) /\ r \in [DOMAIN q -> DOMAIN q] /\ Sign(r) = 1
                    /\ Create(k, [i \in DOMAIN q |-> VertexOf(q[r[i]])]) /\ Attach(k, Range(q))
\* on the oriented simplex of another
OnSimplexOf(k, j, q) == /\ Placed(q) /\ h[j] # Null /\ Oriented(VerticesOf(q)) = h[j]
                        /\ Copy(k, j) /\ Attach(k, Range(q))
Turn(k, j) == h[j] # Null /\ Dim(h[j].s) > 0 /\ FlipOf(k, j) /\ Attach(k, g[j])
\* the facet opposite to vertex v; that of a segment is a node
Side(k, j, v) == /\ h[j] # Null /\ Dim(h[j].s) > 0 /\ v \in h[j].s
                 /\ (IF Dim(h[j].s) = 1 THEN Bind(k, [s |-> h[j].s \ {v}, o |-> 1]) /\ UNCHANGED <<nv, vh, fp, reg>>
                     ELSE Face(k, j, v))
                 /\ Attach(k, {n \in g[j] : VertexOf(n) # v})
\* simplices on shared vertices agree on where these are
Agree(a, b) == \A n \in g[a], m \in g[b] : VertexOf(n) = VertexOf(m) => n = m
Swap(k, j, a, b, dir) ==
  /\ h[a] # Null /\ h[b] # Null /\ Agree(a, b) /\ FlipDiagonal(a, b, k, j, dir)
  /\ g' = [g EXCEPT ![k] = {n \in g[a] \cup g[b] : VertexOf(n) \in h'[k].s},
                    ![j] = {n \in g[a] \cup g[b] : VertexOf(n) \in h'[j].s}]
  /\ UNCHANGED <<np, node>>
Assign(k, j) == Copy(k, j) /\ Attach(k, g[j])
Forget(k) == Drop(k) /\ Attach(k, {})

\* where points are: the code is asked to put point p here
Where(p) == [d \in 1..D |-> 60 * (((p * p * (d + 1) + d * p + d * d) % 11) - 5)]
Plus(x, y) == [d \in 1..D |-> x[d] + y[d]]
Minus(x, y) == [d \in 1..D |-> x[d] - y[d]]
RECURSIVE Total(_)
Total(s) == IF s = {} THEN [d \in 1..D |-> 0]
            ELSE LET n == CHOOSE n \in s : TRUE IN Plus(Where(PointOf(n)), Total(s \ {n}))
Directors(q) == [i \in 1..(Len(q) - 1) |-> Minus(Where(PointOf(q[i + 1])), Where(PointOf(q[1])))]
\* weights of the nodes in quarters
RECURSIVE Weighted(_, _, _)
Weighted(q, w, n) == IF n = 0 THEN [d \in 1..D |-> 0]
                     ELSE Plus([d \in 1..D |-> w[n] * (Where(PointOf(q[n])))[d]], Weighted(q, w, n - 1))
-----------------------------------------------------------------------------
GTypeOK == /\ \A n \in DOMAIN node : node[n][1] \in 1..nv /\ node[n][2] \in 1..np
           /\ \A k \in Handles : g[k] \subseteq DOMAIN node
\* a node for every vertex
OneForEach == \A k \in Handles : /\ {VertexOf(n) : n \in g[k]} = h[k].s
                                 /\ Cardinality(g[k]) = Cardinality(h[k].s)
\* the nodes of what there is stay where they are
NodesStay == [][\A n \in DOMAIN node : node'[n] = node[n]]_gvars
\* nothing but the handles meant by an operation changes
=============================================================================
