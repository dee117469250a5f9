------------------------------- MODULE Grids -------------------------------
(* Meshes, clouds of points and function spaces as they are shown: writers   *)
(* of VTK grids, and the fields recorded on them.                            *)
(*                                                                           *)
(* A writer takes what it is opened on as it is then. What is recorded on it *)
(* is what the field holds then. Whatever happens to either afterwards, the  *)
(* files show this.                                                          *)
EXTENDS MeshUse
CONSTANT Writers
VARIABLE writer  \* Writers -> [kind, par, keys, cells: sequence of keys -> how many, arr: name -> key -> tuple]
gvars == <<vars, writer>>
Closed == [kind |-> "none", par |-> 0, keys |-> {}, cells |-> <<>>, arr |-> <<>>]
GInit == Init /\ writer = [w \in Writers |-> Closed]
Standing == UNCHANGED vars
To(w, x) == writer' = [writer EXCEPT ![w] = x] /\ Standing
\* every node, or point, by its number, is recorded first
Numbers(keys) == [a \in {0} |-> [k \in keys |-> <<k>>]]
Open(w, kind, par, keys, cells, arr) == To(w, [kind |-> kind, par |-> par, keys |-> TLCEval(keys), cells |-> TLCEval(cells), arr |-> TLCEval(arr)])
OpenMesh(w, m, par) == Open(w, "mesh", par, NodesOf(m), CellBag(m), Numbers(NodesOf(m)))
OpenCloud(w, par) == Open(w, "cloud", par, 1..ns, <<>>, Numbers(1..ns))
\* the nodes that elements have in between vertices are not shown
OpenSpace(w, m, par) == Open(w, "space", par, NodesOf(m), CellBag(m), Numbers(NodesOf(m)))
OpenPlain(w, m, par) == Open(w, "plain", par, NodesOf(m), CellBag(m), <<>>)
IsOpen(w) == writer[w].kind # "none"
Close(w) == IsOpen(w) /\ To(w, Closed)
\* an array takes the place of one of the same name
WithArray(x, name, a) == [x EXCEPT !.arr = [b \in DOMAIN @ \cup {name} |-> IF b = name THEN a ELSE @[b]]]
Tuple(kind, v) == IF kind = "point" THEN <<(v[1] + 2048) * 4096 + v[2] + 2048>> ELSE v
\* a field is recorded under its name, or another
Record(w, f, name) ==
  /\ Live(f)
  /\ \/ writer[w].kind = "mesh" /\ field[f].kind = "mesh"
     \/ writer[w].kind = "cloud" /\ field[f].kind = "point"
  /\ writer[w].keys \subseteq Keys(f)
  /\ To(w, WithArray(writer[w], IF name = 0 THEN field[f].name ELSE name,
                     TLCEval([k \in writer[w].keys |-> Tuple(field[f].kind, field[f].val[k])])))
\* a field with the value a + b k at the node, or point, k
Spread(w, name, a, b) == writer[w].kind \in {"mesh", "cloud", "space"} /\ name # 0
                         /\ To(w, WithArray(writer[w], name, TLCEval([k \in writer[w].keys |-> <<a + b * k>>])))
\* process r of n writes
Write(w, n, r) == IsOpen(w) /\ r < n /\ UNCHANGED gvars
GridTypeOK ==
  \A w \in Writers :
    /\ \A q \in DOMAIN writer[w].cells : Range(q) \subseteq writer[w].keys /\ writer[w].cells[q] > 0
    /\ \A a \in DOMAIN writer[w].arr : DOMAIN writer[w].arr[a] = writer[w].keys
\* nothing but what is done to it changes a writer
WritersApart == [][vars' # vars => writer' = writer]_gvars
=============================================================================
