---------------------------- MODULE MeshUseTrace ----------------------------
EXTENDS MeshUse, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
A == E.a
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
From(n) == SubSeq(A, n, Len(A))
\* the key as the code reports it: a number, or the sites of a simplex in its order
Key(kind, k) == IF kind = "cell" THEN <<Range(k), Sign(k)>> ELSE k[1]
FieldOk(f, o) ==
  LET x == field'[f] IN
  /\ o.kind = x.kind
  /\ x.kind # "none" =>
       LET ks == TLCEval([i \in DOMAIN o.e |-> Key(x.kind, o.e[i].k)]) IN
       /\ o.name = x.name /\ o.n = Cardinality(DOMAIN x.val)
       /\ Distinct(ks) /\ Range(ks) = DOMAIN x.val
       /\ \A i \in DOMAIN ks : o.e[i].v = x.val[ks[i]]
Observed == /\ \A f \in Fields : FieldOk(f, E.f[f])
            /\ E.n = [m \in Meshes |-> Cardinality(DOMAIN mesh'[m])]
PartsOk(m) == /\ Len(E.parts) = A[2] /\ Shared(m, E.parts)
              \* asking again gives the same
              /\ E.again
FileOk(m) ==
  LET bag == [p \in {E.cells[i] : i \in DOMAIN E.cells} |-> Cardinality({i \in DOMAIN E.cells : E.cells[i] = p})] IN
  /\ E.read /\ E.count = NCells(m) /\ bag = PlacedBag(m)
  \* every point once in the file; what is read has a node for every point, or, if it is discontinuous, for every corner
  /\ E.points = Cardinality(SitesIn(m)) /\ E.vertices = Cardinality(SitesIn(m))
  /\ E.nodes = (IF A[3] = 1 THEN NCells(m) * (N + 1) ELSE Cardinality(SitesIn(m)))
TInit == Init /\ l = 1
Sx(m, k) == Simplex(mesh[m][k])
TNext ==
  \/ Is("Reset") /\ site' = <<>> /\ ns' = 0 /\ nc' = 0 /\ mesh' = [m \in Meshes |-> <<>>] /\ field' = [f \in Fields |-> NoField]
  \/ Is("node") /\ Node /\ Observed
  \/ Is("twin") /\ Twin(A[1]) /\ Observed
  \/ Is("insert") /\ Insert(A[1], From(2)) /\ Observed
  \/ Is("erase") /\ Erase(A[1], A[2]) /\ Observed
  \/ Is("onmesh") /\ OnMesh(A[1], A[2], A[3]) /\ Observed
  \/ Is("sampled") /\ Sampled(A[1], A[2], A[3], A[4], A[5]) /\ Observed
  \/ Is("onpoints") /\ OnPoints(A[1], A[2]) /\ Observed
  \/ Is("oncells") /\ OnCells(A[1], A[2], A[3]) /\ Observed
  \/ Is("empty") /\ Empty(A[1], IF A[2] = 0 THEN "mesh" ELSE "point", A[3]) /\ Observed
  \/ Is("nothing") /\ Nothing(A[1]) /\ Observed
  \/ Is("put") /\ Put(A[1], A[2], From(3)) /\ Observed
  \/ Is("enter") /\ Enter(A[1], A[2], From(3)) /\ Observed
  \/ Is("putcell") /\ Put(A[1], Sx(A[2], A[3]), From(4)) /\ Observed
  \/ Is("entercell") /\ Enter(A[1], Sx(A[2], A[3]), From(4)) /\ Observed
  \/ Is("shift") /\ Shift(A[1], A[2]) /\ Observed
  \/ Is("movefield") /\ Move(A[1], A[2]) /\ Observed
  \/ Is("ask") /\ Ask(A[1], A[2]) /\ E.ret = Answer(A[1], A[2]) /\ Observed
  \/ Is("askcell") /\ Ask(A[1], Sx(A[2], A[3])) /\ E.ret = Answer(A[1], Sx(A[2], A[3])) /\ Observed
  \/ Is("parts") /\ Partition(A[1], A[2]) /\ PartsOk(A[1]) /\ Observed
  \/ Is("file") /\ WriteRead(A[1]) /\ FileOk(A[1]) /\ Observed
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
