---------------------------- MODULE StdPtrTrace ----------------------------
EXTENDS StdPtr, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Members(q) == {q[i] : i \in DOMAIN q}
\* order: for every pair of slots the comparison of their handles, -1, 0 or 1; it is total, and a resource keeps its place
Sane(m) == \A s, t, u \in Slots :
             /\ h'[s] > 0 /\ h'[t] > 0 => m[s][t] = -m[t][s] /\ ((m[s][t] = 0) = (h'[s] = h'[t]))
             /\ h'[s] > 0 /\ h'[t] > 0 /\ h'[u] > 0 /\ m[s][t] <= 0 /\ m[t][u] <= 0 => m[s][u] <= 0
\* the place of each in the order of all of the collection
Place(q) == \A i, j \in DOMAIN q : i < j => \A s, t \in Slots : h'[s] = q[i] /\ h'[t] = q[j] => E.order[s][t] = -1
Observed ==
  /\ \A s \in Slots : E.h[s] = h'[s]
  \* each is destroyed once, when the last handle of it goes
  /\ E.made = n' /\ Len(E.alive) = Cardinality(Alive') /\ Members(E.alive) = Alive'
  /\ \A s, t \in Slots : E.same[s][t] = (h'[s] > 0 /\ h'[s] = h'[t])
  /\ Sane(E.order)
  /\ Len(E.kept) = Cardinality(kept') /\ Members(E.kept) = kept'
  /\ Len(E.ranked) = Cardinality(ranked') /\ Members(E.ranked) = ranked' /\ Place(E.ranked)
  /\ \A s \in Slots : E.found[s] = (IF h'[s] > 0 THEN <<h'[s] \in kept', h'[s] \in ranked'>> ELSE <<FALSE, FALSE>>)
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ h' = [s \in Slots |-> Gone] /\ n' = 0 /\ kept' = {} /\ ranked' = {}
  \/ Is("make") /\ Make(E.a[1]) /\ Observed
  \/ Is("copy") /\ Copy(E.a[1], E.a[2]) /\ Observed
  \/ Is("move") /\ Move(E.a[1], E.a[2]) /\ Observed
  \/ Is("assign") /\ Assign(E.a[1], E.a[2]) /\ Observed
  \/ Is("massign") /\ E.a[1] # E.a[2] /\ MoveAssign(E.a[1], E.a[2]) /\ Observed
  \/ Is("massign") /\ E.a[1] = E.a[2] /\ SelfMove(E.a[1]) /\ Observed
  \/ Is("drop") /\ Drop(E.a[1]) /\ Observed
  \/ Is("keep") /\ Keep(E.a[1]) /\ Observed
  \/ Is("forget") /\ Forget(E.a[1]) /\ Observed
  \/ Is("rank") /\ Rank(E.a[1]) /\ Observed
  \/ Is("unrank") /\ Unrank(E.a[1]) /\ Observed
  \/ Is("clear") /\ Clear /\ Observed
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
