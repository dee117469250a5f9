------------------------------- MODULE StdPtr -------------------------------
(* mito::utilities::StdSharedPointer: a handle that makes its resource, as   *)
(* nodes of meshes, points and nodes of finite elements are held; and the    *)
(* collections of them, hashed and ordered.                                  *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Slots, Limit
Gone == -1        \* no handle in this slot
Empty == 0        \* a handle that was moved from
VARIABLES h,      \* Slots -> {Gone, Empty} \cup 1..n
          n,      \* resources made so far
          kept,   \* resources with a handle in the hashed collection
          ranked  \* resources with a handle in the ordered collection
vars == <<h, n, kept, ranked>>
Init == h = [s \in Slots |-> Gone] /\ n = 0 /\ kept = {} /\ ranked = {}
Live(s) == h[s] # Gone
Bound(s) == h[s] > 0
\* what lives: each resource with a handle left
Alive == {h[s] : s \in {t \in Slots : Bound(t)}} \cup kept \cup ranked
Set(f) == h' = f /\ UNCHANGED <<n, kept, ranked>>
Make(s) == h[s] = Gone /\ n < Limit /\ n' = n + 1 /\ h' = [h EXCEPT ![s] = n + 1] /\ UNCHANGED <<kept, ranked>>
Copy(s, t) == h[s] = Gone /\ Live(t) /\ Set([h EXCEPT ![s] = h[t]])
Move(s, t) == h[s] = Gone /\ Live(t) /\ Set([h EXCEPT ![s] = h[t], ![t] = Empty])
Assign(s, t) == Live(s) /\ Live(t) /\ Set([h EXCEPT ![s] = h[t]])
MoveAssign(s, t) == s # t /\ Live(s) /\ Live(t) /\ Set([h EXCEPT ![s] = h[t], ![t] = Empty])
SelfMove(s) == Live(s) /\ (UNCHANGED vars \/ Set([h EXCEPT ![s] = Empty]))
Drop(s) == Live(s) /\ Set([h EXCEPT ![s] = Gone])
\* a collection has one handle of each resource
Keep(s) == Bound(s) /\ kept' = kept \cup {h[s]} /\ UNCHANGED <<h, n, ranked>>
Forget(s) == Bound(s) /\ kept' = kept \ {h[s]} /\ UNCHANGED <<h, n, ranked>>
Rank(s) == Bound(s) /\ ranked' = ranked \cup {h[s]} /\ UNCHANGED <<h, n, kept>>
Unrank(s) == Bound(s) /\ ranked' = ranked \ {h[s]} /\ UNCHANGED <<h, n, kept>>
Clear == kept' = {} /\ ranked' = {} /\ UNCHANGED <<h, n>>
Next == \/ \E s \in Slots : Make(s) \/ SelfMove(s) \/ Drop(s) \/ Keep(s) \/ Forget(s) \/ Rank(s) \/ Unrank(s)
        \/ \E s, t \in Slots : Copy(s, t) \/ Move(s, t) \/ Assign(s, t) \/ MoveAssign(s, t)
        \/ Clear
TypeOK == h \in [Slots -> {Gone, Empty} \cup 1..n] /\ kept \cup ranked \subseteq 1..n
\* what has ended never lives again, and what is made was not there
Ends == [][\A r \in 1..n : r \notin Alive => r \notin Alive']_vars
OneAtATime == [][n' - n \in {0, 1} /\ Alive' \ Alive \subseteq {n'}]_vars
=============================================================================
