----------------------------- MODULE SharedPtr -----------------------------
(* mito::utilities::SharedPointer over reference-countable resources.       *)
(* A slot is a C++ variable that may or may not hold a constructed pointer. *)
(* The resource keeps the count itself (intrusive); the pointers only       *)
(* increment and decrement it, which is what the actions below do.          *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Slots, Res

Gone == -1        \* no pointer object lives in this slot
Null == 0         \* a pointer object bound to no resource

VARIABLES h,      \* Slots -> {Gone, Null} \cup Res
          cnt,    \* Res -> Int, the count stored in the resource
          crowd   \* Res -> Nat, how many handles of it a collection holds

vars == <<h, cnt, crowd>>

Init == /\ h = [s \in Slots |-> Gone]
        /\ cnt = [r \in Res |-> 0]
        /\ crowd = [r \in Res |-> 0]

TypeOK == /\ h \in [Slots -> {Gone, Null} \cup Res]
          /\ cnt \in [Res -> Int]
          /\ crowd \in [Res -> Nat]

Live(s) == h[s] # Gone
Acq(c, r) == IF r \in Res THEN [c EXCEPT ![r] = @ + 1] ELSE c
Rel(c, r) == IF r \in Res THEN [c EXCEPT ![r] = @ - 1] ELSE c

\* construct from a raw handle
Wrap(s, r) == /\ h[s] = Gone
              /\ h' = [h EXCEPT ![s] = r]
              /\ cnt' = Acq(cnt, r)
              /\ UNCHANGED crowd

\* default construct
MakeNull(s) == /\ h[s] = Gone
               /\ h' = [h EXCEPT ![s] = Null]
               /\ UNCHANGED <<cnt, crowd>>

\* copy construct s from t
Copy(s, t) == /\ h[s] = Gone /\ Live(t)
              /\ h' = [h EXCEPT ![s] = h[t]]
              /\ cnt' = Acq(cnt, h[t])
              /\ UNCHANGED crowd

\* move construct s from t
Move(s, t) == /\ h[s] = Gone /\ Live(t)
              /\ h' = [h EXCEPT ![s] = h[t], ![t] = Null]
              /\ UNCHANGED <<cnt, crowd>>

\* copy assign s = t, t possibly s itself
Assign(s, t) == /\ Live(s) /\ Live(t)
                /\ h' = [h EXCEPT ![s] = h[t]]
                /\ cnt' = Acq(Rel(cnt, h[s]), h[t])
                /\ UNCHANGED crowd

\* move assign s = std::move(t) between two distinct pointers
MoveAssign(s, t) == /\ s # t /\ Live(s) /\ Live(t)
                    /\ h' = [h EXCEPT ![s] = h[t], ![t] = Null]
                    /\ cnt' = Rel(cnt, h[s])
                    /\ UNCHANGED crowd

\* self move assignment leaves the pointer as it was or nulls it; in both
\* cases the count follows
SelfMove(s) == /\ Live(s)
               /\ \/ UNCHANGED vars
                  \/ /\ h' = [h EXCEPT ![s] = Null]
                     /\ cnt' = Rel(cnt, h[s])
                     /\ UNCHANGED crowd

\* destroy the pointer
Drop(s) == /\ Live(s)
           /\ h' = [h EXCEPT ![s] = Gone]
           /\ cnt' = Rel(cnt, h[s])
           /\ UNCHANGED crowd

\* n more copies of s join the collection
Join(s, n) == /\ h[s] \in Res
              /\ crowd' = [crowd EXCEPT ![h[s]] = @ + n]
              /\ cnt' = [cnt EXCEPT ![h[s]] = @ + n]
              /\ UNCHANGED h
\* n of the handles of r leave it
Leave(r, n) == /\ crowd[r] >= n
               /\ crowd' = [crowd EXCEPT ![r] = @ - n]
               /\ cnt' = [cnt EXCEPT ![r] = @ - n]
               /\ UNCHANGED h
\* the last handle of r to leave is moved to s
Pull(s, r) == /\ Live(s) /\ crowd[r] > 0
              /\ h' = [h EXCEPT ![s] = r]
              /\ crowd' = [crowd EXCEPT ![r] = @ - 1]
              /\ cnt' = Rel(cnt, h[s])

Next == \E s \in Slots :
          \/ \E r \in Res : Wrap(s, r)
          \/ MakeNull(s)
          \/ \E t \in Slots : Copy(s, t) \/ Move(s, t) \/ Assign(s, t) \/ MoveAssign(s, t)
          \/ SelfMove(s)
          \/ Drop(s)
          \/ Join(s, 1)
          \/ \E r \in Res : Leave(r, 1) \/ Pull(s, r)

Spec == Init /\ [][Next]_vars

\* the property: the count of every resource is the number of pointers bound to it, wherever they are
CountExact == \A r \in Res : cnt[r] = Cardinality({s \in Slots : h[s] = r}) + crowd[r]
\* hence it is never negative, and it changes only when pointers to it come and go
NonNegative == \A r \in Res : cnt[r] >= 0
=============================================================================
