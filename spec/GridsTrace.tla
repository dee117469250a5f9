----------------------------- MODULE GridsTrace -----------------------------
EXTENDS MeshUseTrace, Grids
Name(w) == "w" \o ToString(w)
Pad(p) == [i \in 1..3 |-> IF i <= D THEN p[i] ELSE 0]
PlaceOf(x, k) == Pad(Where(IF x.kind = "cloud" THEN k ELSE site[k]))
CellType == <<3, 5, 10>>[N]
TheArray(f, name) == CHOOSE a \in Range(f.arrays) : a.name = name
Counts(seqs) == [q \in Range(seqs) |-> Cardinality({i \in DOMAIN seqs : seqs[i] = q})]
\* what is in the file is the grid of the writer
ContentOk(x, f) ==
  /\ \A i \in DOMAIN f.cells : f.cells[i][1] = CellType /\ Len(f.cells[i]) = N + 2
  /\ Len(f.points) = Cardinality(x.keys)
  /\ Len(f.arrays) = Cardinality(DOMAIN x.arr) /\ {f.arrays[i].name : i \in DOMAIN f.arrays} = DOMAIN x.arr
  /\ IF x.kind = "plain" THEN
       \* points are known by where they are
       /\ Counts([i \in DOMAIN f.cells |-> [j \in 1..(N + 1) |-> f.points[f.cells[i][j + 1]]]])
          = LET all == {[j \in DOMAIN q |-> PlaceOf(x, q[j])] : q \in DOMAIN x.cells}
                RECURSIVE Total(_)
                Total(s) == IF s = {} THEN 0 ELSE LET q == CHOOSE q \in s : TRUE IN x.cells[q] + Total(s \ {q})
            IN [p \in all |-> Total({q \in DOMAIN x.cells : [j \in DOMAIN q |-> PlaceOf(x, q[j])] = p})]
       /\ {f.cells[i][j] : i \in DOMAIN f.cells, j \in 2..(N + 2)} = 1..Len(f.points)
     ELSE
       \* points are known by the numbers recorded on them
       \E key \in {[i \in DOMAIN f.points |-> TheArray(f, 0).t[i][1]]} :
         /\ Range(key) = x.keys
         /\ \A i \in DOMAIN f.points : f.points[i] = PlaceOf(x, key[i])
         /\ Counts([i \in DOMAIN f.cells |-> [j \in 1..(N + 1) |-> key[f.cells[i][j + 1]]]]) = x.cells
         /\ \A a \in DOMAIN x.arr : LET t == TheArray(f, a).t IN
              Len(t) = Len(f.points) /\ \A i \in DOMAIN t : t[i] = x.arr[a][key[i]]
FilesOk(w, n, r) ==
  LET x == writer[w] IN
  /\ E.ok
  /\ IF x.par = 0 THEN Len(E.files) = 1 /\ E.files[1].name = Name(w) \o ".vtu" /\ E.files[1].pieces = <<>> /\ ContentOk(x, E.files[1])
     ELSE \* the piece of this process, and the file that names them all
          /\ Len(E.files) = 2
          /\ \E i \in 1..2 : LET f == E.files[i] g == E.files[3 - i] IN
               /\ f.name = Name(w) \o "_" \o ToString(r) \o ".vtu" /\ f.pieces = <<>> /\ ContentOk(x, f)
               /\ g.name = Name(w) \o ".pvtu" /\ g.pieces = <<n, r, r>> /\ ContentOk(x, g)
GTInit == TInit /\ writer = [w \in Writers |-> Closed]
GTNext ==
  \/ TNext /\ writer' = IF E.op = "Reset" THEN [w \in Writers |-> Closed] ELSE writer
  \/ Is("openmesh") /\ OpenMesh(A[1], A[2], A[3]) /\ Observed
  \/ Is("opencloud") /\ OpenCloud(A[1], A[3]) /\ Observed
  \/ Is("openspace") /\ OpenSpace(A[1], A[2], A[3]) /\ Observed
  \/ Is("openplain") /\ OpenPlain(A[1], A[2], A[3]) /\ Observed
  \/ Is("close") /\ Close(A[1]) /\ Observed
  \/ Is("record") /\ Record(A[1], A[2], A[3]) /\ E.ok /\ Observed
  \/ Is("spread") /\ Spread(A[1], A[2], A[3], A[4]) /\ Observed
  \/ Is("write") /\ Write(A[1], A[2], A[3]) /\ FilesOk(A[1], A[2], A[3]) /\ Observed
GTSpec == GTInit /\ [][GTNext]_<<gvars, l>>
=============================================================================
