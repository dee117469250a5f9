--------------------------- MODULE TopologyTrace ----------------------------
EXTENDS Topology, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Has(o, f) == f \in DOMAIN o
Distinct(q) == Cardinality(Range(q)) = Len(q)
\* the first handle bound to the same simplex, or to the same footprint
FirstSame(k) == CHOOSE j \in Handles : h'[j] = h'[k] /\ \A m \in Handles : h'[m] = h'[k] => j <= m
FirstFoot(k) == CHOOSE j \in Handles : h'[j].s = h'[k].s /\ \A m \in Handles : h'[m].s = h'[k].s => j <= m
\* an oriented simplex as the code reports it: the vertices in order, the sign of a vertex
Key(o) == IF Len(o.vs) = 1 THEN Tip(o.vs[1], o.o) ELSE Oriented(o.vs)
Opposite(x, y) == CHOOSE v \in x.s : v \notin y.s
BaseSign(x, f) == IF Dim(x.s) = 0 THEN 1 ELSE f[x.s]
HandleOk(k, o) ==
  LET x == h'[k] IN
  IF x = Null THEN o.null
  ELSE
    /\ ~o.null
    /\ Has(o, "vs") => Distinct(o.vs) /\ Key(o) = x
    /\ Has(o, "ori") => o.ori = x.o * BaseSign(x, fp')
    /\ Has(o, "id") => o.id = FirstSame(k)
    /\ Has(o, "fid") => o.fid = FirstFoot(k)
    /\ Has(o, "refs") => o.refs = Holders(reg', fp', h', x)
    /\ Has(o, "ef") => o.ef = (Flip(x) \in reg')
    /\ Has(o, "ex") => o.ex
    /\ Has(o, "exf") => o.exf = (Flip(x) \in reg')
    /\ Has(o, "ok") => o.ok
    /\ Has(o, "comp") /\ Dim(x.s) > 0 =>
         /\ Len(o.comp) = Dim(x.s) + 1
         /\ {Key(o.comp[i]) : i \in DOMAIN o.comp} = Comp(x.s, fp'[x.s])
         /\ Sign([i \in DOMAIN o.comp |-> Opposite(x, Key(o.comp[i]))]) = (IF Dim(x.s) = 1 THEN -x.o ELSE x.o)
    /\ Has(o, "edges") /\ Dim(x.s) > 1 =>
         {Range(o.edges[i]) : i \in DOMAIN o.edges} = {t \in SUBSET x.s : Cardinality(t) = 2}
Pairs == {<<x[1], x[2]>> : x \in {y \in vh' \X vh' : y[1] # y[2]}}
Observed ==
  /\ \A k \in Handles : HandleOk(k, E.h[k])
  /\ Has(E, "nsimp") => E.nsimp = [n \in 1..4 |-> Cardinality({x \in reg' : Dim(x.s) = n - 1})]
  /\ Has(E, "pairs") => {<<E.pairs[i][1], E.pairs[i][2]>> : i \in DOMAIN E.pairs}
                          = {p \in Pairs : Oriented(p) \in reg'}
A == E.a
Tail3(q, n) == SubSeq(q, n, Len(q))
Same(k) == h'[k] = h[k]
TInit == Init /\ l = 1
TReset == Is("Reset") /\ nv' = 0 /\ vh' = {} /\ fp' = <<>> /\ reg' = {} /\ h' = [k \in Handles |-> Null]
TNext ==
  \/ TReset
  \/ Is("vertex") /\ Vertex /\ Observed
  \/ Is("dropv") /\ DropVertex(A[1]) /\ Observed
  \/ Is("ov") /\ OVertex(A[1], A[2], A[3]) /\ Observed
  \/ Is("mk") /\ Create(A[1], Tail3(A, 3)) /\ Observed
  \/ Is("build") /\ Create(A[1], Tail3(A, 3)) /\ Observed
  \/ Is("comp") /\ Compose(A[1], Tail3(A, 3)) /\ Observed
     /\ LET j == Tail3(A, 3) IN Has(E, "was") => E.was = ([s |-> VerticesAt(j), o |-> OrderSign(j)] \in reg)
  \/ Is("recomp") /\ Recompose(A[1], A[2]) /\ Observed
  \/ Is("flip") /\ FlipOf(A[1], A[2]) /\ Observed
  \/ Is("copy") /\ Copy(A[1], A[2]) /\ Observed
  \/ Is("drop") /\ Drop(A[1]) /\ Observed
  \/ Is("face") /\ Face(A[1], A[2], A[3]) /\ Observed
  \/ Is("diag") /\ (\E dir \in {-1, 1} : FlipDiagonal(A[3], A[4], A[1], A[2], dir)) /\ Observed
  \/ Is("erase") /\ (Erase(A[1]) \/ EraseNot(A[1])) /\ Observed
  \/ /\ Is("valid")
     /\ LET n == A[1] + 1
            q == SubSeq(A, 2, 1 + n)
            m == {i \in 1..n : A[1 + n + i] = 1}
        IN Validate(q, m) /\ (Has(E, "ret") => E.ret = IsValid(q, m))
     /\ Observed
TSpec == TInit /\ [][TNext]_<<nv, vh, fp, reg, h, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
