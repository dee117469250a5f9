---------------------------- MODULE RefineTrace -----------------------------
EXTENDS Refine, Json, IOUtils
VARIABLES l, name      \* which node is at a point
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
\* the nodes as observed: a sequence of <<node, coordinates...>>, which the cells index
Point(x) == SubSeq(x, 2, D + 1)
AtNodes == TLCEval([i \in DOMAIN E.nodes |-> Point(E.nodes[i])])
There == LET at == AtNodes IN
         TLCEval({[i \in 1..Len(E.cells[k]) |-> at[E.cells[k][i]]] : k \in DOMAIN E.cells})
\* no cell twice, one node to a point, nodes stay
Observed(there) ==
  LET at == AtNodes  ps == TLCEval(Range(at)) IN
  /\ mesh' = there /\ Cardinality(there) = Len(E.cells)
  /\ bsize' = E.bsize
  /\ Cardinality(ps) = Len(E.nodes)
  /\ name' = [x \in ps |-> E.nodes[CHOOSE i \in DOMAIN at : at[i] = x][1]]
  /\ \A x \in DOMAIN name \cap ps : name'[x] = name[x]
TInit == Init /\ l = 1 /\ name = <<>>
TReset == Is("Reset") /\ mesh' = {} /\ bsize' = 0 /\ name' = <<>>
Step(there) ==
  \/ Is("insert") /\ Insert(E.a, E.bsize) /\ Observed(there)
  \/ Is("erase") /\ \E q \in mesh \ there : Erase(q, E.bsize) /\ Observed(there)
  \/ Is("refine") /\ Refine(E.a, there) /\ Observed(there)
TNext == \/ TReset
         \/ l <= Len(Trace) /\ E.op \notin {"Reset", "Crash"} /\ LET there == There IN Step(there)
TSpec == TInit /\ [][TNext]_<<mesh, bsize, l, name>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
