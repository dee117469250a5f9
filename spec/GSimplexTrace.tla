--------------------------- MODULE GSimplexTrace ----------------------------
EXTENDS GSimplex, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Has(o, f) == f \in DOMAIN o
Distinct(q) == Cardinality(Range(q)) = Len(q)
V1(n) == node'[n][1]
P1(n) == node'[n][2]
HandleOk(k, o) ==
  LET x == h'[k] IN
  IF x = Null THEN o.null
  ELSE
    /\ ~o.null
    \* the nodes
    /\ Distinct(o.n) /\ Range(o.n) = g'[k]
    /\ Dim(x.s) > 0 =>
         \* in an order of the orientation
         /\ Oriented([i \in DOMAIN o.n |-> V1(o.n[i])]) = x
         /\ Distinct(o.vs) /\ Oriented(o.vs) = x
         /\ o.id = (CHOOSE j \in Handles : h'[j] = x /\ \A m \in Handles : h'[m] = x => j <= m)
         \* where they are
         /\ o.bary = [d \in 1..D |-> (LET q == o.n IN Weighted(q, [i \in DOMAIN q |-> 1], Len(q)))[d]]
         /\ o.at = Where(P1(o.n[1]))
         /\ o.dir = Directors(o.n)
         /\ \A i \in DOMAIN o.par : o.par[i].x = Weighted(o.n, o.par[i].w, Len(o.n))
Observed == /\ \A k \in Handles : HandleOk(k, E.h[k])
            /\ E.nodes = node'
            /\ E.cloud.size = np' /\ Distinct(E.cloud.points) /\ Range(E.cloud.points) = 1..np'
A == E.a
From(q, n) == SubSeq(q, n, Len(q))
TInit == GInit /\ l = 1
TReset == Is("Reset") /\ nv' = 0 /\ vh' = {} /\ fp' = <<>> /\ reg' = {} /\ h' = [k \in Handles |-> Null]
          /\ np' = 0 /\ node' = <<>> /\ g' = [k \in Handles |-> {}]
TNext ==
  \/ TReset
  \/ Is("node") /\ Node(A[1], A[2]) /\ Observed
  \/ Is("place") /\ Node(nv + 1, np + 1) /\ Observed
  \/ Is("point") /\ Point /\ Observed
  \/ Is("mk") /\ Build(A[1], From(A, 3)) /\ Observed
  \/ Is("on") /\ BuildOn(A[1], SubSeq(A, 3, 3 + A[2]), From(A, 4 + A[2])) /\ Observed
  \/ Is("re") /\ OnSimplexOf(A[1], A[2], From(A, 3)) /\ Observed
  \/ Is("flip") /\ Turn(A[1], A[2]) /\ Observed
  \/ Is("face") /\ Side(A[1], A[2], A[3]) /\ Observed
  \/ Is("copy") /\ Assign(A[1], A[2]) /\ Observed
  \/ Is("drop") /\ Forget(A[1]) /\ Observed
  \/ Is("diag") /\ (\E dir \in {-1, 1} : Swap(A[1], A[2], A[3], A[4], dir)) /\ Observed
TSpec == TInit /\ [][TNext]_<<gvars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
