-------------------------- MODULE SharedPtrTrace ---------------------------
(* Is a recorded execution of the real SharedPointer a behaviour of the     *)
(* specification, with every observation as the specification says?         *)
EXTENDS SharedPtr, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
\* h: what each pointer is bound to, found through operator-> and is_nullptr;
\* refs: references() of each bound pointer; payload: what operator-> reads;
\* crowd, crefs: how many handles a collection holds of each resource, and the count
\* that one of them gives;
\* same: for every pair of bound pointers, operator== and operator<=> == 0
Observed ==
  /\ \A s \in Slots : E.h[s] = h'[s]
  /\ \A s \in Slots : E.refs[s] = IF h'[s] \in Res THEN cnt'[h'[s]] ELSE -1
  /\ \A r \in Res : E.crowd[r] = crowd'[r] /\ (crowd'[r] > 0 => E.crefs[r] = cnt'[r])
  /\ \A s, t \in Slots : E.same[s][t] = (h'[s] \in Res /\ h'[s] = h'[t])
TInit == Init /\ l = 1
TReset == Is("Reset") /\ h' = [s \in Slots |-> Gone] /\ cnt' = [r \in Res |-> 0] /\ crowd' = [r \in Res |-> 0]
TNext ==
  \/ TReset
  \/ Is("wrap") /\ Wrap(E.a[1], E.a[2]) /\ Observed
  \/ Is("null") /\ MakeNull(E.a[1]) /\ Observed
  \/ Is("copy") /\ Copy(E.a[1], E.a[2]) /\ Observed
  \/ Is("move") /\ Move(E.a[1], E.a[2]) /\ Observed
  \/ Is("assign") /\ Assign(E.a[1], E.a[2]) /\ Observed
  \/ Is("massign") /\ E.a[1] # E.a[2] /\ MoveAssign(E.a[1], E.a[2]) /\ Observed
  \/ Is("massign") /\ E.a[1] = E.a[2] /\ SelfMove(E.a[1]) /\ Observed
  \/ Is("join") /\ Join(E.a[1], E.a[2]) /\ Observed
  \/ Is("leave") /\ Leave(E.a[1], E.a[2]) /\ Observed
  \/ Is("pull") /\ Pull(E.a[1], E.a[2]) /\ Observed
  \/ Is("drop") /\ Drop(E.a[1]) /\ Observed
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
