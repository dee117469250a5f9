------------------------------- MODULE MeshMC -------------------------------
EXTENDS Mesh, TLC, Json
CONSTANTS Depth, MaxNodes, MaxCells
VARIABLE path
mcvars == <<nn, nc, mesh, path>>
Log(op) == path' = Append(path, op)
MCInit == Init /\ path = <<>>
Ops(m) ==
  \/ NewMesh(m) /\ Log(<<"new", m>>)
  \/ nc < MaxCells /\ \E q \in Cells : Insert(m, q) /\ Log(<<"insert", m, q>>)
  \/ \E k \in 1..nc : (Erase(m, k) \/ EraseNot(m, k)) /\ Log(<<"erase", m, k>>)
  \/ \E k \in Meshes : MoveMesh(m, k) /\ Log(<<"move", m, k>>)
  \/ Live(m) /\ EraseDuplicates(m, FirstOfEach(Of(m), Topological), Topological) /\ Log(<<"topo", m>>)
  \/ Live(m) /\ EraseDuplicates(m, FirstOfEach(Of(m), Geometrical), Geometrical) /\ Log(<<"geo", m>>)
MCNext == IF nn < MaxNodes THEN Node /\ Log(<<"node">>) ELSE \E m \in Meshes : Ops(m)
MCSpec == MCInit /\ [][MCNext]_mcvars
View == vars
EmitEdge == PrintT("@" \o ToJson(path'))
EmitRun == IF Len(path) = Depth THEN PrintT("@" \o ToJson(path)) ELSE TRUE
Short == Len(path) < Depth

R(s) == {RandomElement(s)}
RandomCell == LET s == RandomElement({t \in SUBSET (1..nn) : Cardinality(t) = N + 1}) IN RandomElement(Perms(s))
\* a cell that shares a facet with one that is there, on its other side (or not)
Neighbours(m, v) == {r \in UNION {Perms((Range(Of(m)[k]) \ {w}) \cup {v}) :
                                 k \in R(DOMAIN Of(m)), w \in R(1..nn)} : Len(r) = N + 1}
Try(m, k, t) ==
  CASE t \in 1..4 -> \E q \in {RandomCell} : Insert(m, q) /\ Log(<<"insert", m, q>>)
    [] t = 5 -> \E q \in {RandomCell} : Insert(m, q) /\ Log(<<"insertcell", m, q>>)
    [] t \in 6..10 -> Live(m) /\ DOMAIN Of(m) # {} /\ \E v \in R(1..nn) : LET ns == Neighbours(m, v) IN ns # {}
                        /\ \E q \in R(ns) : Insert(m, q) /\ Log(<<"insert", m, q>>)
    [] t \in 11..12 -> Live(m) /\ DOMAIN Of(m) # {} /\ \E j \in R(DOMAIN Of(m)) : \E q \in R(Perms(Range(Of(m)[j]))) :
                        Insert(m, q) /\ Log(<<"insertcell", m, q>>)
    [] t \in 13..18 -> Live(m) /\ DOMAIN Of(m) # {} /\ \E j \in R(DOMAIN Of(m)) : Erase(m, j) /\ Log(<<"erase", m, j>>)
    [] t = 19 -> nc > 0 /\ \E j \in R(1..nc) : EraseNot(m, j) /\ Log(<<"erase", m, j>>)
    [] t = 20 -> Live(m) /\ EraseDuplicates(m, FirstOfEach(Of(m), Topological), Topological) /\ Log(<<"topo", m>>)
    [] t = 21 -> Live(m) /\ EraseDuplicates(m, FirstOfEach(Of(m), Geometrical), Geometrical) /\ Log(<<"geo", m>>)
    [] t \in 22..23 -> MoveMesh(m, k) /\ Log(<<"move", m, k>>)
    [] t = 24 -> Len(path) > 20 /\ EndMesh(m) /\ Log(<<"end", m>>)
    [] t \in 25..26 -> NewMesh(m) /\ Log(<<"new", m>>)
    [] OTHER -> FALSE
SimNext == IF nn < MaxNodes THEN Node /\ Log(<<"node">>)
           ELSE IF \A m \in Meshes : ~Live(m) THEN NewMesh(1) /\ Log(<<"new", 1>>)
           ELSE \E a \in 1..10 : \E t \in R(1..26), m \in R(Meshes), k \in R(Meshes) : Try(m, k, t)
SimSpec == MCInit /\ [][SimNext]_mcvars
=============================================================================
