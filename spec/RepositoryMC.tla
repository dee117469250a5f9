---------------------------- MODULE RepositoryMC ----------------------------
EXTENDS Repository, TLC, Json
CONSTANTS Depth, MaxObj, MaxSeg
VARIABLE path
mcvars == <<seg, slots, used, nseg, h, nobj, alive, path>>
Log(op) == path' = Append(path, op)
MCInit == Init /\ path = <<>>
MCNext ==
  \/ \E n \in 1..MaxSeg : New(n) /\ Log(<<"new", n>>)
  \/ \E k \in Handles :
       \/ nobj < MaxObj /\ EmplaceI(k) /\ Log(<<"emplace", k>>)
       \/ h[k] # 0 /\ Drop(k) /\ Log(<<"drop", k>>)
       \/ (Erase(k) \/ EraseNot(k)) /\ Log(<<"erase", k>>)
       \/ \E j \in Handles : Copy(k, j) /\ Log(<<"copy", k, j>>)
       \/ \E x \in Registered : Lookup(k, x) /\ Log(<<"lookup", k, x>>)
       \/ \E n \in DOMAIN InUse : Take(k, n) /\ Log(<<"take", k, n>>)
  \/ Destroy /\ Log(<<"destroy">>)
MCSpec == MCInit /\ [][MCNext]_mcvars
SimNext ==
  \/ \E n \in 1..MaxSeg : New(n) /\ Log(<<"new", n>>)
  \/ \E k \in Handles :
       \/ \E n \in 1..4 : nobj < MaxObj /\ EmplaceI(k) /\ Log(<<"emplace", k>>)
       \/ h[k] # 0 /\ k % 3 = Len(path) % 3 /\ Drop(k) /\ Log(<<"drop", k>>)
       \/ (Erase(k) \/ EraseNot(k)) /\ Log(<<"erase", k>>)
       \/ \E j \in Handles : (j + k) % 4 = Len(path) % 4 /\ Copy(k, j) /\ Log(<<"copy", k, j>>)
       \/ Len(path) % 2 = 0 /\ \E x \in Registered : Refs(x) = 0 /\ Lookup(k, x) /\ Log(<<"lookup", k, x>>)
       \/ Len(path) % 5 = 0 /\ \E n \in DOMAIN InUse : Take(k, n) /\ Log(<<"take", k, n>>)
  \/ Len(path) % 41 = 40 /\ Destroy /\ Log(<<"destroy">>)
SimSpec == MCInit /\ [][SimNext]_mcvars
View == vars
EmitEdge == PrintT("@" \o ToJson(path'))
EmitRun == IF Len(path) = Depth THEN PrintT("@" \o ToJson(path)) ELSE TRUE
=============================================================================
