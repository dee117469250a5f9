---------------------------- MODULE SegVectorMC ----------------------------
EXTENDS SegVector, TLC, Json
CONSTANTS Depth, MaxObj
VARIABLE path
mcvars == <<cont, nobj, alive, path>>
Log(op) == path' = Append(path, op)
MCInit == Init /\ path = <<>>
MCNext == \E k \in Conts :
  \/ \E n \in Segs : New(k, n) /\ Log(<<"new", k, n>>)
  \/ nobj < MaxObj /\ EmplaceI(k) /\ Log(<<"emplace", k>>)
  \/ DestroyI(k) /\ Log(<<"destroy", k>>)
  \/ \E j \in Conts : Move(k, j) /\ Log(<<"move", k, j>>)
  \/ Live(k) /\ \E i \in DOMAIN cont[k].slots :
        /\ Erase(k, i, {}) \/ EraseAgain(k, i)
        /\ Log(<<"erase", k, i>>)
  \/ Live(k) /\ Len(cont[k].slots) > 1 /\ \E r \in 0..1 : EraseIf(k, 2, r, {}) /\ Log(<<"eraseif", k, 2, r>>)
MCNext2 == MCNext \/ \E k \in Conts :
  \/ nobj + 2 <= MaxObj /\ Burst(k, 2) /\ Log(<<"burst", k, 2>>)
  \/ \E i, j \in 1..nobj : i < j /\ EraseRange(k, i, j, {}) /\ Log(<<"range", k, i, j>>)
MCSpec2 == MCInit /\ [][MCNext2]_mcvars
MCSpec == MCInit /\ [][MCNext]_mcvars
\* a simulation that grows: containers are rarely destroyed
SimNext ==
  \/ \E k \in Conts, n \in Segs : New(k, n) /\ Log(<<"new", k, n>>)
  \/ \E k \in Conts : \E n \in 1..4 : nobj < MaxObj /\ EmplaceI(k) /\ Log(<<"emplace", k>>)
  \/ \E k \in Conts : Live(k) /\ \E i \in DOMAIN cont[k].slots :
        /\ i <= 3 \/ i > Len(cont[k].slots) - 3 \/ i % 3 = Len(path) % 3
        /\ Erase(k, i, {}) \/ (i % 4 = 0 /\ EraseAgain(k, i))
        /\ Log(<<"erase", k, i>>)
  \/ Len(path) % 9 = 0 /\ \E k \in Conts : Live(k) /\ \E r \in 0..2 : EraseIf(k, 3, r, {}) /\ Log(<<"eraseif", k, 3, r>>)
  \/ Len(path) % 7 = 0 /\ \E k, j \in Conts : Move(k, j) /\ Log(<<"move", k, j>>)
  \/ Len(path) % 31 = 30 /\ \E k \in Conts : DestroyI(k) /\ Log(<<"destroy", k>>)
SimSpec == MCInit /\ [][SimNext]_mcvars
View == vars
EmitEdge == PrintT("@" \o ToJson(path'))
EmitRun == IF Len(path) = Depth THEN PrintT("@" \o ToJson(path)) ELSE TRUE
=============================================================================
