------------------------------ MODULE GridsMC ------------------------------
EXTENDS MeshUseMC, Grids
CONSTANT Spaces    \* whether there are elements for the cells
gmcvars == <<gvars, path>>
GMCInit == GInit /\ path = <<>>
SomeWriter == R(Writers)
GridTry(t, w) ==
  CASE t = 1 -> \E m \in R(Meshes), p \in R({0, 0, 1}) : OpenMesh(w, m, p) /\ Log(<<"openmesh", w, m, p>>)
    [] t = 2 -> \E p \in R({0, 0, 1}) : OpenCloud(w, p) /\ Log(<<"opencloud", w, 1, p>>)
    [] t = 3 -> Spaces = 1 /\ \E m \in R({x \in Meshes : Single(x)}), p \in R({0, 0, 1}) : OpenSpace(w, m, p) /\ Log(<<"openspace", w, m, p>>)
    [] t = 4 -> \E m \in R(Meshes), p \in R({0, 0, 1}) : OpenPlain(w, m, p) /\ Log(<<"openplain", w, m, p>>)
    [] t = 5 -> Close(w) /\ Log(<<"close", w>>)
    [] t \in 6..8 -> \E f \in R(Fields), n \in R({0, 0} \cup 1..9) : Record(w, f, n) /\ Log(<<"record", w, f, n>>)
    [] t = 9 -> \E n \in R(1..9), a, b \in R(-9..9) : Spread(w, n, a, b) /\ Log(<<"spread", w, n, a, b>>)
    [] t \in 10..12 -> \E n \in R(1..4) : \E r \in R(0..(n - 1)) : Write(w, n, r) /\ Log(<<"write", w, n, r>>)
    [] OTHER -> FALSE
GridOptions == (IF \E m \in Meshes : Single(m) THEN 1..12 ELSE (1..12) \ {3})
GSimNext == \/ \E a \in 1..2 : \E t \in R(Options) : Build(t) /\ UNCHANGED writer
            \/ ns > N /\ \E a \in 1..2 : \E t \in R((1..13) \ {4, 5, 6}), f \in R(Fields), x \in R(1..9) : FieldTry(t, f, x) /\ UNCHANGED writer
            \/ ns > N /\ \E a \in 1..4 : \E t \in R(GridOptions), w \in R(Writers) : GridTry(t, w)
            \/ UNCHANGED gmcvars
GSimSpec == GMCInit /\ [][GSimNext]_gmcvars
\* every grid of every small mesh
Wrote == path # <<>> /\ path[Len(path)][1] = "write"
GSmallNext ==
  /\ ~Wrote
  /\ \/ /\ ~IsOpen(1) /\ UNCHANGED writer
        /\ \/ Len(site) <= N /\ Node /\ Log(<<"node">>)
           \/ Len(site) = N + 1 /\ ((Node /\ Log(<<"node">>)) \/ (Twin(1) /\ Log(<<"twin", 1>>)))
           \/ /\ Len(site) = N + 2 /\ NCells(1) < 2
              /\ \E q \in Seqs : (NCells(1) = 0 => q[1] < q[2]) /\ Insert(1, q) /\ Log(<<"insert", 1>> \o q)
     \/ /\ Len(site) = N + 2 /\ ~IsOpen(1)
        /\ \E p \in {0, 1} : \/ OpenMesh(1, 1, p) /\ Log(<<"openmesh", 1, 1, p>>)
                             \/ OpenCloud(1, p) /\ Log(<<"opencloud", 1, 1, p>>)
                             \/ Spaces = 1 /\ Single(1) /\ OpenSpace(1, 1, p) /\ Log(<<"openspace", 1, 1, p>>)
                             \/ OpenPlain(1, 1, p) /\ Log(<<"openplain", 1, 1, p>>)
     \/ IsOpen(1) /\ Write(1, 2, 1) /\ Log(<<"write", 1, 2, 1>>)
GSmallSpec == GMCInit /\ [][GSmallNext]_gmcvars
EmitWrite == (path'[Len(path')][1] = "write") => PrintT("@" \o ToJson(path'))
=============================================================================
