---------------------------- MODULE SharedPtrMC ----------------------------
(* Bounded instance of SharedPtr: checks the invariants and, as a generator *)
(* of behaviours, prints one operation path per transition (EmitEdge, BFS)  *)
(* or per simulated behaviour (EmitRun).                                    *)
EXTENDS SharedPtr, TLC, Json, IOUtils
CONSTANTS Depth, Sizes, MaxCrowd
VARIABLE path
mcvars == <<vars, path>>
Log(op) == path' = Append(path, op)
MCInit == Init /\ path = <<>>
MCNext == \E s \in Slots :
    \/ \E r \in Res : Wrap(s, r) /\ Log(<<"wrap", s, r>>)
    \/ MakeNull(s) /\ Log(<<"null", s>>)
    \/ \E t \in Slots : \/ Copy(s, t) /\ Log(<<"copy", s, t>>)
                        \/ Move(s, t) /\ Log(<<"move", s, t>>)
                        \/ Assign(s, t) /\ Log(<<"assign", s, t>>)
                        \/ MoveAssign(s, t) /\ Log(<<"massign", s, t>>)
    \/ SelfMove(s) /\ Log(<<"massign", s, s>>)
    \/ Drop(s) /\ Log(<<"drop", s>>)
Crowds == \E n \in Sizes :
    \/ \E s \in Slots : h[s] \in Res /\ crowd[h[s]] + n <= MaxCrowd /\ Join(s, n) /\ Log(<<"join", s, n>>)
    \/ \E r \in Res : \/ Leave(r, n) /\ Log(<<"leave", r, n>>)
                      \/ \E s \in Slots : Pull(s, r) /\ Log(<<"pull", s, r>>)
\* now and then
SimNext == IF RandomElement(1..6) = 1 /\ (\E s \in Slots : h[s] \in Res) THEN \/ Crowds \/ \E s \in Slots : Live(s) /\ Drop(s) /\ Log(<<"drop", s>>) ELSE MCNext
CrowdSpec == MCInit /\ [][MCNext \/ Crowds]_mcvars
SimSpec == MCInit /\ [][SimNext]_mcvars
MCSpec == MCInit /\ [][MCNext]_mcvars
View == vars
\* crowds come and go in a few steps
Short == Len(path) <= 5
EmitEdge == PrintT("@" \o ToJson(path'))
EmitRun == IF Len(path) = Depth THEN PrintT("@" \o ToJson(path)) ELSE TRUE
=============================================================================
