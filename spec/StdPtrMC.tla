------------------------------ MODULE StdPtrMC ------------------------------
EXTENDS StdPtr, TLC, Json
CONSTANT Depth
VARIABLE path
mcvars == <<vars, path>>
Log(op) == path' = Append(path, op)
MCInit == Init /\ path = <<>>
MCNext ==
  \/ \E s \in Slots : \/ Make(s) /\ Log(<<"make", s>>)
                      \/ SelfMove(s) /\ Log(<<"massign", s, s>>)
                      \/ Drop(s) /\ Log(<<"drop", s>>)
                      \/ Keep(s) /\ Log(<<"keep", s>>)
                      \/ Forget(s) /\ Log(<<"forget", s>>)
                      \/ Rank(s) /\ Log(<<"rank", s>>)
                      \/ Unrank(s) /\ Log(<<"unrank", s>>)
  \/ \E s, t \in Slots : \/ Copy(s, t) /\ Log(<<"copy", s, t>>)
                         \/ Move(s, t) /\ Log(<<"move", s, t>>)
                         \/ Assign(s, t) /\ Log(<<"assign", s, t>>)
                         \/ MoveAssign(s, t) /\ Log(<<"massign", s, t>>)
  \/ Clear /\ Log(<<"clear">>)
MCSpec == MCInit /\ [][MCNext]_mcvars
View == vars
EmitEdge == PrintT("@" \o ToJson(path'))
EmitRun == IF Len(path) = Depth THEN PrintT("@" \o ToJson(path)) ELSE TRUE
=============================================================================
