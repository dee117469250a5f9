----------------------------- MODULE MeshTrace ------------------------------
EXTENDS Mesh, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
A == E.a
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Has(o, f) == f \in DOMAIN o
Tail3(q, n) == SubSeq(q, n, Len(q))
\* the facet a sequence of nodes (or a node and its sign) stands for
Key(f) == IF N = 1 THEN [s |-> {f[1]}, o |-> f[2]] ELSE Oriented(f)
SubOk(c, n, got) ==
  LET sets == UNION {{s \in SUBSET Range(c[k]) : Cardinality(s) = n} : k \in DOMAIN c}
      ran == TLCEval([i \in DOMAIN got |-> Range(got[i])])
  IN /\ \A i \in DOMAIN got : Len(got[i]) = n /\ ran[i] \in sets
     /\ \A s \in sets : Cardinality({i \in DOMAIN got : ran[i] = s}) = SubcellCount(c, s)
MeshOk(m, o) ==
  LET c == mesh'[m].c
      t == FacetCounts(c)
      b == TLCEval(BoundaryOf(t))
  IN
  IF ~mesh'[m].live THEN ~o.live
  ELSE
    /\ o.live
    /\ Has(o, "n") => o.n = Cardinality(DOMAIN c)
    /\ Has(o, "cells") =>
         /\ Len(o.cells) = Cardinality(DOMAIN c)
         /\ {o.cells[i][1] : i \in DOMAIN o.cells} = DOMAIN c
         /\ \A i \in DOMAIN o.cells : Tail3(o.cells[i], 2) = c[o.cells[i][1]]
    /\ Has(o, "simp") => \A i \in DOMAIN o.simp : Distinct(o.simp[i]) /\ Oriented(o.simp[i]) = Oriented(c[o.cells[i][1]])
    /\ Has(o, "bsize") => o.bsize = BoundarySize(t)
    /\ Has(o, "boundary") =>
         IF N = 1
         THEN \* the nodes at the ends, each once
              /\ {o.boundary[i] : i \in DOMAIN o.boundary} = {CHOOSE v \in x.s : TRUE : x \in b}
              /\ Len(o.boundary) = Cardinality({x.s : x \in b})
         ELSE LET ks == TLCEval([i \in DOMAIN o.boundary |-> Key(o.boundary[i])]) IN
              /\ \A i \in DOMAIN o.boundary : Distinct(o.boundary[i]) /\ ks[i] \in b
              /\ \A x \in b : Cardinality({i \in DOMAIN ks : ks[i] = x}) = t[x]
    /\ Has(o, "onb") =>
         LET bs == TLCEval({x.s : x \in b}) IN
         /\ {Range(o.onb[i][1]) : i \in DOMAIN o.onb} = {x.s : x \in DOMAIN t}
         /\ \A i \in DOMAIN o.onb : o.onb[i][2] = (Range(o.onb[i][1]) \in bs)
    /\ (Has(o, "bb") /\ N > 1 /\ Manifold(t)) => o.bb = 0
    /\ (Has(o, "faces") /\ N > 1) => SubOk(c, N, o.faces)
    /\ (Has(o, "edges") /\ N > 2) => SubOk(c, 2, o.edges)
    /\ Has(o, "nodes") => {o.nodes[i] : i \in DOMAIN o.nodes} = UNION {Range(c[k]) : k \in DOMAIN c}
                          /\ Distinct(o.nodes)
Observed == \A m \in Meshes : MeshOk(m, E.m[m])
\* the cells the code reports to be there
There(m) == {E.m[m].cells[i][1] : i \in DOMAIN E.m[m].cells}
TInit == Init /\ l = 1
TReset == Is("Reset") /\ nn' = 0 /\ nc' = 0 /\ mesh' = [m \in Meshes |-> NoMesh]
TNext ==
  \/ TReset
  \/ Is("node") /\ Node /\ Observed
  \/ Is("new") /\ NewMesh(A[1]) /\ Observed
  \/ Is("end") /\ EndMesh(A[1]) /\ Observed
  \/ Is("move") /\ MoveMesh(A[1], A[2]) /\ Observed
  \/ Is("insert") /\ Insert(A[1], Tail3(A, 2)) /\ Observed
  \/ Is("insertcell") /\ Insert(A[1], Tail3(A, 2)) /\ Observed
  \/ Is("erase") /\ (Erase(A[1], A[2]) \/ EraseNot(A[1], A[2])) /\ Observed
  \/ Is("topo") /\ EraseDuplicates(A[1], There(A[1]), Topological) /\ Observed
  \/ Is("geo") /\ EraseDuplicates(A[1], There(A[1]), Geometrical) /\ Observed
TSpec == TInit /\ [][TNext]_<<nn, nc, mesh, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
