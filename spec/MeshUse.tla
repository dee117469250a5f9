------------------------------ MODULE MeshUse ------------------------------
(* What meshes are put to: fields of values at their nodes, points or cells, *)
(* their partition among processes, and Summit files.                        *)
(*                                                                           *)
(* A site is a vertex at a point; several nodes may stand on one site (as in *)
(* discontinuous elements). A cell is a sequence of nodes on distinct sites. *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS N, D,    \* dimension of cells and of space
          Fine,    \* whether coordinates have many digits
          Meshes, Fields
VARIABLES site,    \* of every node
          ns,      \* sites so far
          nc,      \* cells inserted so far
          mesh,    \* Meshes -> cells (number -> nodes)
          field    \* Fields -> [kind, name, val: key -> values], or NoField
vars == <<site, ns, nc, mesh, field>>
NoField == [kind |-> "none", name |-> 0, val |-> <<>>]
Init == site = <<>> /\ ns = 0 /\ nc = 0 /\ mesh = [m \in Meshes |-> <<>>] /\ field = [f \in Fields |-> NoField]
Range(q) == {q[i] : i \in DOMAIN q}
Distinct(q) == Cardinality(Range(q)) = Len(q)
Inv(q) == Cardinality({p \in (DOMAIN q) \X (DOMAIN q) : p[1] < p[2] /\ q[p[1]] > q[p[2]]})
Sign(q) == IF Inv(q) % 2 = 0 THEN 1 ELSE -1
SitesOf(q) == [i \in DOMAIN q |-> site[q[i]]]
\* the oriented simplex under a cell
Simplex(q) == <<Range(SitesOf(q)), Sign(SitesOf(q))>>
IsCell(q) == Len(q) = N + 1 /\ Range(q) \subseteq DOMAIN site /\ Distinct(SitesOf(q))
NodesOf(m) == UNION {Range(mesh[m][k]) : k \in DOMAIN mesh[m]}
SitesIn(m) == {site[n] : n \in NodesOf(m)}
NCells(m) == Cardinality(DOMAIN mesh[m])
\* four times the coordinates of a site; in a file they have more digits, and are told in units of 2^-20
Coarse(s, d) == IF d = 1 THEN ((7 * s) % 31) - 15 ELSE ((s * s * (d + 2) + 3 * s * d + d) % 17) - 8
Where(s) == [d \in 1..D |-> IF Fine = 0 THEN Coarse(s, d) ELSE (IF s % 5 = 0 THEN 0 ELSE 262144 * Coarse(s, d)) + ((s * 7919 + d * 37) % 10007)]

Node == ns' = ns + 1 /\ site' = Append(site, ns + 1) /\ UNCHANGED <<nc, mesh, field>>
Twin(n) == n \in DOMAIN site /\ site' = Append(site, site[n]) /\ UNCHANGED <<ns, nc, mesh, field>>
Insert(m, q) == /\ IsCell(q) /\ nc' = nc + 1
                /\ mesh' = [mesh EXCEPT ![m] = [k \in DOMAIN @ \cup {nc + 1} |-> IF k = nc + 1 THEN q ELSE mesh[m][k]]]
                /\ UNCHANGED <<site, ns, field>>
Erase(m, k) == k \in DOMAIN mesh[m] /\ mesh' = [mesh EXCEPT ![m] = [j \in DOMAIN @ \ {k} |-> mesh[m][j]]]
               /\ UNCHANGED <<site, ns, nc, field>>
-----------------------------------------------------------------------------
\* fields
Here == UNCHANGED <<site, ns, nc, mesh>>
Set(f, x) == field' = [field EXCEPT ![f] = x] /\ Here
New(f, kind, name, val) == Set(f, [kind |-> kind, name |-> name, val |-> TLCEval(val)])
Zero == <<0, 0>>
\* on the nodes of a mesh
OnMesh(f, m, name) == New(f, "mesh", name, [n \in NodesOf(m) |-> Zero])
\* with the values of a continuous field: a + b x at the coordinates of the node
At(s, a, b) == <<a + b * (Where(s))[1], b * (Where(s))[D] - a>>
Sampled(f, m, name, a, b) == New(f, "mesh", name, [n \in NodesOf(m) |-> At(site[n], a, b)])
\* on all the points there are
OnPoints(f, name) == New(f, "point", name, [s \in 1..ns |-> Zero])
\* on the simplices under the cells of a mesh, where no two of these are the same
Simplices(m) == {Simplex(mesh[m][k]) : k \in DOMAIN mesh[m]}
Single(m) == Cardinality(Simplices(m)) = NCells(m)
OnCells(f, m, name) == Single(m) /\ New(f, "cell", name, [x \in Simplices(m) |-> Zero])
Empty(f, kind, name) == kind \in {"mesh", "point"} /\ New(f, kind, name, <<>>)
Live(f) == field[f].kind # "none"
Keys(f) == DOMAIN field[f].val
Nothing(f) == Set(f, NoField)
\* a value is set where there is one
Put(f, x, v) == Live(f) /\ x \in Keys(f) /\ Set(f, [field[f] EXCEPT !.val[x] = v])
\* an entry is added where there is none
Enter(f, x, v) == /\ Live(f) /\ x \notin Keys(f)
                  /\ Set(f, [field[f] EXCEPT !.val = [y \in DOMAIN @ \cup {x} |-> IF y = x THEN v ELSE @[y]]])
\* all values are changed in turn
Shift(f, a) == Live(f) /\ Set(f, [field[f] EXCEPT !.val = [y \in DOMAIN @ |-> <<@[y][1] + a, 2 * @[y][2] - a>>]])
Move(f, g) == Live(f) /\ f # g /\ field' = [field EXCEPT ![g] = field[f], ![f] = NoField] /\ Here
\* asking for a value
Ask(f, x) == Live(f) /\ UNCHANGED vars
Answer(f, x) == IF x \in Keys(f) THEN field[f].val[x] ELSE <<>>
-----------------------------------------------------------------------------
\* a mesh shared out into n parts: the cells of every part, as node sequences with how many there are of each
Bag(seqs) == [q \in {seqs[i] : i \in DOMAIN seqs} |-> Cardinality({i \in DOMAIN seqs : seqs[i] = q})]
CellBag(m) == [q \in {mesh[m][k] : k \in DOMAIN mesh[m]} |-> Cardinality({k \in DOMAIN mesh[m] : mesh[m][k] = q})]
RECURSIVE Concat(_, _)
Concat(parts, n) == IF n = 0 THEN <<>> ELSE Concat(parts, n - 1) \o parts[n]
Partition(m, n) == n >= 1 /\ n <= NCells(m) + (IF n = 1 THEN 1 ELSE 0) /\ UNCHANGED vars
Shared(m, parts) == Bag(Concat(parts, Len(parts))) = CellBag(m)
-----------------------------------------------------------------------------
\* a mesh written to a file and read back; as cells of places
Places(q) == [i \in DOMAIN q |-> Where(site[q[i]])]
PlacedBag(m) == LET all == {Places(mesh[m][k]) : k \in DOMAIN mesh[m]} IN
  [p \in all |-> Cardinality({k \in DOMAIN mesh[m] : Places(mesh[m][k]) = p})]
WriteRead(m) == UNCHANGED vars
-----------------------------------------------------------------------------
TypeOK == /\ \A n \in DOMAIN site : site[n] \in 1..ns
          /\ \A m \in Meshes : \A k \in DOMAIN mesh[m] : IsCell(mesh[m][k])
          /\ \A f \in Fields : \A x \in Keys(f) : Len(field[f].val[x]) = 2
\* a field is its own: it changes only when it is named
Apart == [][\A f \in Fields : mesh' # mesh => field'[f] = field[f]]_vars
SitesDiffer == \A s, t \in 1..ns : s # t => Where(s) # Where(t)
=============================================================================
