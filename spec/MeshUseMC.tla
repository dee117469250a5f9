----------------------------- MODULE MeshUseMC -----------------------------
EXTENDS MeshUse, Json
CONSTANTS Depth, MaxNodes, MaxCells, MaxParts,
          Use      \* "fields", "parts" or "files"
VARIABLE path
mcvars == <<vars, path>>
Log(op) == path' = Append(path, op)
R(s) == {RandomElement(s)}
MCInit == Init /\ path = <<>>
RECURSIVE Choice(_, _)
Choice(set, n) == IF n = 0 \/ set = {} THEN <<>> ELSE LET x == RandomElement(set) IN <<x>> \o Choice({y \in set : site[y] # site[x]}, n - 1)
\* a cell near one that is there
Near(m) == LET q == mesh[m][RandomElement(DOMAIN mesh[m])]
               i == RandomElement(1..(N + 1))
               rest == {n \in DOMAIN site : \A j \in 1..(N + 1) : j # i => site[q[j]] # site[n]}
           IN [q EXCEPT ![i] = RandomElement(rest)]
Value == <<RandomElement(-9..9), RandomElement(-9..9)>>
LiveFields == {f \in Fields : Live(f)}
\* keys of a kind, whether the field has them or not, as the code is told of them
KeysOfKind(kind) == IF kind = "mesh" THEN DOMAIN site ELSE IF kind = "point" THEN 1..ns ELSE {}
Some(s) == RandomElement(s)
Build(t) ==
  CASE t \in 1..3 -> ns < MaxNodes - 2 /\ Node /\ Log(<<"node">>)
    [] t = 4 -> Len(site) < MaxNodes /\ \E n \in R(DOMAIN site) : Twin(n) /\ Log(<<"twin", n>>)
    [] t \in 5..7 -> \E m \in R(Meshes) : NCells(m) < MaxCells /\ \E q \in {Choice(DOMAIN site, N + 1)} : Len(q) = N + 1 /\ Insert(m, q) /\ Log(<<"insert", m>> \o q)
    [] t \in 8..10 -> \E m \in R(Meshes) : NCells(m) \in 1..(MaxCells - 1) /\ \E q \in {Near(m)} : Insert(m, q) /\ Log(<<"insert", m>> \o q)
    [] t \in 11..12 -> \E m \in R(Meshes) : NCells(m) > 0 /\ \E k \in R(DOMAIN mesh[m]) : Erase(m, k) /\ Log(<<"erase", m, k>>)
    [] OTHER -> FALSE
FieldTry(t, f, x) ==
  CASE t = 1 -> \E m \in R(Meshes) : OnMesh(f, m, x) /\ Log(<<"onmesh", f, m, x>>)
    [] t = 2 -> \E m \in R(Meshes) : \E a, b \in R(-5..5) : Sampled(f, m, x, a, b) /\ Log(<<"sampled", f, m, x, a, b>>)
    [] t = 3 -> OnPoints(f, x) /\ Log(<<"onpoints", f, x>>)
    [] t = 4 -> \E m \in R(Meshes) : OnCells(f, m, x) /\ Log(<<"oncells", f, m, x>>)
    [] t = 5 -> \E k \in R({"mesh", "point"}) : Empty(f, k, x) /\ Log(<<"empty", f, IF k = "mesh" THEN 0 ELSE 1, x>>)
    [] t = 6 -> Live(f) /\ Nothing(f) /\ Log(<<"nothing", f>>)
    [] t \in 7..8 -> Live(f) /\ Keys(f) # {} /\ field[f].kind # "cell" /\ \E k \in R(Keys(f)) : \E v \in {Value} : Put(f, k, v) /\ Log(<<"put", f, k>> \o v)
    [] t \in 9..11 -> Live(f) /\ KeysOfKind(field[f].kind) \ Keys(f) # {} /\ \E k \in R(KeysOfKind(field[f].kind) \ Keys(f)) : \E v \in {Value} :
                    Enter(f, k, v) /\ Log(<<"enter", f, k>> \o v)
    [] t = 12 -> Live(f) /\ (\A k \in Keys(f) : \A i \in 1..2 : field[f].val[k][i] \in (-1000)..1000) /\ \E a \in R(-3..3) : Shift(f, a) /\ Log(<<"shift", f, a>>)
    [] t = 13 -> \E g \in R(Fields) : Move(f, g) /\ Log(<<"movefield", f, g>>)
    [] t \in 14..15 -> Live(f) /\ field[f].kind # "cell" /\ KeysOfKind(field[f].kind) # {} /\ \E k \in R(KeysOfKind(field[f].kind)) : Ask(f, k) /\ Log(<<"ask", f, k>>)
    \* cells: through the k-th cell of a mesh
    [] t \in 16..18 -> Live(f) /\ field[f].kind = "cell" /\ \E m \in R(Meshes) : NCells(m) > 0 /\ \E k \in R(DOMAIN mesh[m]) : \E v \in {Value} :
                    LET y == Simplex(mesh[m][k]) IN
                      \/ Put(f, y, v) /\ Log(<<"putcell", f, m, k>> \o v)
                      \/ Enter(f, y, v) /\ Log(<<"entercell", f, m, k>> \o v)
                      \/ Ask(f, y) /\ Log(<<"askcell", f, m, k>>)
    [] OTHER -> FALSE
UseIt ==
  CASE Use = "fields" -> \E t \in R(1..18), f \in R(Fields), x \in R(1..9) : FieldTry(t, f, x)
    [] Use = "parts" -> \E m \in R(Meshes) : \E n \in R(1..MaxParts) : Partition(m, n) /\ Log(<<"parts", m, n>>)
    [] Use = "files" -> \E m \in R(Meshes) : \E x \in R({0, 0, 1}), dg \in R({0, 1}), y \in R(0..3) : WriteRead(m) /\ Log(<<"file", m, x, dg, y>>)
Often == IF Use = "fields" THEN 2 ELSE 6
Options == (IF ns < MaxNodes - 2 THEN 1..3 ELSE {}) \cup (IF Len(site) \in 1..(MaxNodes - 1) THEN {4} ELSE {})
           \cup (IF ns > N THEN 5..12 ELSE {})
SimNext == \/ \E a \in 1..Often : \E t \in R(Options) : Build(t)
           \/ ns > N /\ \E a \in (IF Use = "fields" THEN 1..4 ELSE 1..1) : UseIt
           \/ UNCHANGED mcvars
SimSpec == MCInit /\ [][SimNext]_mcvars
EmitRun == IF TLCGet("level") = Depth /\ path # <<>> THEN PrintT("@" \o ToJson(path)) ELSE TRUE
\* every use of every small mesh
Seqs == {q \in [1..(N + 1) -> DOMAIN site] : Distinct(SitesOf(q))}
Asked == path # <<>> /\ path[Len(path)][1] \notin {"node", "twin", "insert"}
SmallNext ==
  /\ ~Asked
  /\ \/ Len(site) <= N /\ Node /\ Log(<<"node">>)
     \/ Len(site) = N + 1 /\ ((Node /\ Log(<<"node">>)) \/ (Twin(1) /\ Log(<<"twin", 1>>)))
     \/ /\ Len(site) = N + 2 /\ NCells(1) < 2
        /\ \E q \in Seqs : (NCells(1) = 0 => q[1] < q[2]) /\ Insert(1, q) /\ Log(<<"insert", 1>> \o q)
     \/ /\ Len(site) = N + 2
        /\ \/ Use = "fields" /\ (\/ OnMesh(1, 1, 1) /\ Log(<<"onmesh", 1, 1, 1>>)
                                 \/ Sampled(1, 1, 2, 1, 2) /\ Log(<<"sampled", 1, 1, 2, 1, 2>>)
                                 \/ OnPoints(1, 3) /\ Log(<<"onpoints", 1, 3>>)
                                 \/ OnCells(1, 1, 4) /\ Log(<<"oncells", 1, 1, 4>>))
           \/ Use = "parts" /\ \E n \in 1..2 : Partition(1, n) /\ Log(<<"parts", 1, n>>)
           \/ Use = "files" /\ \E dg \in {0, 1} : WriteRead(1) /\ Log(<<"file", 1, 0, dg, 0>>)
SmallSpec == MCInit /\ [][SmallNext]_mcvars
EmitEdge == (path'[Len(path')][1] \notin {"node", "twin", "insert"}) => PrintT("@" \o ToJson(path'))
=============================================================================
