-------------------------- MODULE RepositoryTrace ---------------------------
EXTENDS Repository, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Set(s) == {s[i] : i \in DOMAIN s}
DiedExactly == Set(E.died) = alive \ alive' /\ Cardinality(Set(E.died)) = Len(E.died)
Observed ==
  /\ DiedExactly
  /\ E.gone = ~Live'
  /\ E.h = [k \in 1..Len(E.h) |-> h'[k]]
  /\ E.refs = [k \in 1..Len(E.h) |-> IF h'[k] = 0 THEN 0 ELSE Cardinality({m \in Handles : h'[m] = h'[k]})]
  /\ Live' => /\ E.size = Size' /\ E.capacity = Capacity'
              /\ E.iter = InUse' /\ E.post = InUse' /\ E.byid = InUse'
TInit == Init /\ l = 1
TReset == Is("Reset") /\ seg' = 0 /\ slots' = <<>> /\ used' = <<>> /\ nseg' = 0 /\ nobj' = 0
          /\ h' = [k \in Handles |-> 0] /\ alive' = {}
TNext ==
  \/ TReset
  \/ Is("new") /\ New(E.a[1]) /\ Observed
  \/ Is("emplace") /\ Emplace(E.a[1], E.slot) /\ Observed
  \/ Is("drop") /\ Drop(E.a[1]) /\ Observed
  \/ Is("copy") /\ Copy(E.a[1], E.a[2]) /\ Observed
  \/ Is("lookup") /\ Lookup(E.a[1], E.a[2]) /\ Observed
  \/ Is("take") /\ Take(E.a[1], E.a[2]) /\ Observed
  \/ Is("erase") /\ Erase(E.a[1]) /\ E.ret = TRUE /\ Observed
  \/ Is("erase") /\ EraseNot(E.a[1]) /\ E.ret = FALSE /\ Observed
  \/ Is("destroy") /\ Destroy /\ Observed
TSpec == TInit /\ [][TNext]_<<seg, slots, used, nseg, h, nobj, alive, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
