----------------------------- MODULE SegVector -----------------------------
(* mito::utilities::SegmentedVector (with SegmentedAllocator and the two    *)
(* iterators). Objects are numbered in the order in which they are          *)
(* constructed. A container is a sequence of slots in segments; a           *)
(* slot holds the last object constructed in it. Erased slots are reused    *)
(* ahead of any growth.                                                     *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Conts,   \* container variables
          Segs     \* segment sizes

VARIABLES cont,    \* Conts -> Gone or [seg, slots, valid, free, nseg]
          nobj,    \* objects constructed so far
          alive    \* objects constructed and not destroyed

vars == <<cont, nobj, alive>>

Gone == [gone |-> TRUE]
Empty(n) == [gone |-> FALSE, seg |-> n, slots |-> <<>>, valid |-> <<>>, free |-> <<>>, nseg |-> 0]

Init == cont = [k \in Conts |-> Gone] /\ nobj = 0 /\ alive = {}

Live(k) == ~cont[k].gone
Range(s) == {s[i] : i \in DOMAIN s}
Valid(c) == IF c.gone THEN {} ELSE {c.slots[i] : i \in {j \in DOMAIN c.slots : c.valid[j]}}
AllValid(f) == UNION {Valid(f[k]) : k \in Conts}

Size(c) == Cardinality({j \in DOMAIN c.slots : c.valid[j]})
Capacity(c) == c.nseg * c.seg
\* what an iteration visits: the objects in the valid slots, in slot order
RECURSIVE Select(_, _, _)
Select(c, i, acc) == IF i > Len(c.slots) THEN acc
                     ELSE Select(c, i + 1, IF c.valid[i] THEN Append(acc, c.slots[i]) ELSE acc)
Contents(c) == Select(c, 1, <<>>)

\* objects that are in no valid slot may be destroyed at any moment, once
MayDie(died, f) == died \subseteq alive /\ died \cap AllValid(f) = {}

New(k, n) == /\ ~Live(k)
          /\ cont' = [cont EXCEPT ![k] = Empty(n)]
          /\ UNCHANGED <<nobj, alive>>

\* object x goes to slot i: an erased one while there is any, a fresh one otherwise
Without(q, i) == SelectSeq(q, LAMBDA j : j # i)
MayTake(c, i) == IF c.free # <<>> THEN i \in Range(c.free) ELSE i = Len(c.slots) + 1
Placed(c, x, i) ==
  IF c.free # <<>>
    THEN [c EXCEPT !.slots[i] = x, !.valid[i] = TRUE, !.free = Without(@, i)]
    ELSE [c EXCEPT !.slots = Append(@, x), !.valid = Append(@, TRUE),
                   !.nseg = IF Len(c.slots) = Capacity(c) THEN @ + 1 ELSE @]
\* the object whose memory the next object takes over
Overwritten(c, i) == IF c.free # <<>> THEN {c.slots[i]} ELSE {}

Emplace(k, i, died) ==
  /\ Live(k) /\ MayTake(cont[k], i)
  /\ cont' = [cont EXCEPT ![k] = Placed(@, nobj + 1, i)]
  /\ nobj' = nobj + 1
  /\ MayDie(died, cont')
  /\ alive' = (alive \ died) \cup {nobj + 1}
  /\ Overwritten(cont[k], i) \cap alive' = {}

Erased(c, i) == [c EXCEPT !.valid[i] = FALSE, !.free = Append(@, i)]

\* erase of a valid element
Erase(k, i, died) ==
  /\ Live(k) /\ i \in DOMAIN cont[k].slots /\ cont[k].valid[i]
  /\ cont' = [cont EXCEPT ![k] = Erased(@, i)]
  /\ MayDie(died, cont') /\ alive' = alive \ died
  /\ UNCHANGED nobj

\* erase of an element erased before: nothing happens
EraseAgain(k, i) ==
  /\ Live(k) /\ i \in DOMAIN cont[k].slots /\ ~cont[k].valid[i]
  /\ UNCHANGED vars

\* erase, in the course of one iteration, all the elements whose number is r modulo m
RECURSIVE Sweep(_, _, _, _)
Sweep(c, i, m, r) ==
  IF i > Len(c.slots) THEN c
  ELSE Sweep(IF c.valid[i] /\ c.slots[i] % m = r THEN Erased(c, i) ELSE c, i + 1, m, r)
EraseIf(k, m, r, died) ==
  /\ Live(k)
  /\ cont' = [cont EXCEPT ![k] = Sweep(@, 1, m, r)]
  /\ MayDie(died, cont') /\ alive' = alive \ died
  /\ UNCHANGED nobj

\* many objects at once, into a container without erased slots
Burst(k, n) ==
  /\ Live(k) /\ cont[k].free = <<>>
  /\ cont' = [cont EXCEPT ![k] =
       LET len == Len(@.slots) + n IN
       [@ EXCEPT !.slots = [i \in 1..len |-> IF i > len - n THEN nobj + i - (len - n) ELSE cont[k].slots[i]],
                 !.valid = [i \in 1..len |-> IF i > len - n THEN TRUE ELSE cont[k].valid[i]],
                 !.nseg = (len + cont[k].seg - 1) \div cont[k].seg]]
  /\ alive' = alive \cup ((nobj + 1)..(nobj + n))
  /\ nobj' = nobj + n

\* erase a run of valid elements, one after the other
EraseRange(k, lo, hi, died) ==
  /\ Live(k) /\ \A i \in lo..hi : i \in DOMAIN cont[k].slots /\ cont[k].valid[i]
  /\ cont' = [cont EXCEPT ![k] =
       [@ EXCEPT !.valid = [i \in DOMAIN @ |-> cont[k].valid[i] /\ ~(i >= lo /\ i <= hi)],
                 !.free = @ \o [i \in 1..(hi - lo + 1) |-> lo + i - 1]]]
  /\ MayDie(died, cont') /\ alive' = alive \ died
  /\ UNCHANGED nobj

\* move construct container j from container k
Move(k, j) ==
  /\ Live(k) /\ ~Live(j)
  /\ cont' = [cont EXCEPT ![j] = cont[k], ![k] = Empty(cont[k].seg)]
  /\ UNCHANGED <<nobj, alive>>

\* destroy the container: every object it ever held is gone afterwards
Destroy(k, died) ==
  /\ Live(k)
  /\ cont' = [cont EXCEPT ![k] = Gone]
  /\ MayDie(died, cont') /\ alive' = alive \ died
  /\ Range(cont[k].slots) \cap alive' = {}
  /\ UNCHANGED nobj

\* the choices of the implementation: slots are reused in the order in which they were erased, and
\* an erased object is destroyed when its slot is reused
NextSlot(c) == IF c.free # <<>> THEN Head(c.free) ELSE Len(c.slots) + 1
EmplaceI(k) == Live(k) /\ Emplace(k, NextSlot(cont[k]), Overwritten(cont[k], NextSlot(cont[k])) \cap alive)
DestroyI(k) == Destroy(k, IF Live(k) THEN Range(cont[k].slots) \cap alive ELSE {})

Next == \E k \in Conts :
  \/ \E n \in Segs : New(k, n)
  \/ EmplaceI(k) \/ DestroyI(k)
  \/ \E j \in Conts : Move(k, j)
  \/ \E i \in 1..nobj : Erase(k, i, {}) \/ EraseAgain(k, i)
  \/ \E r \in 0..1 : EraseIf(k, 2, r, {})
  \/ \E n \in 1..2 : Burst(k, n)
  \/ \E i, j \in 1..nobj : i < j /\ EraseRange(k, i, j, {})

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == nobj \in Nat /\ alive \subseteq 1..nobj
\* the contents are the objects emplaced and not erased, each once, all alive
ValidAlive == AllValid(cont) \subseteq alive
NoDuplicates == \A k \in Conts : Live(k) =>
  /\ Cardinality(Range(cont[k].slots)) = Len(cont[k].slots)
  /\ Len(Contents(cont[k])) = Size(cont[k])
Disjoint == \A j, k \in Conts : j # k /\ Live(j) /\ Live(k) =>
  Range(cont[j].slots) \cap Range(cont[k].slots) = {}
\* the slots to reuse are exactly the erased slots, and no memory is taken while one is free
FreeIsErased == \A k \in Conts : Live(k) =>
  /\ Range(cont[k].free) = {i \in DOMAIN cont[k].slots : ~cont[k].valid[i]}
  /\ Len(cont[k].free) = Cardinality(Range(cont[k].free))
NoWaste == \A k \in Conts : Live(k) =>
  /\ Len(cont[k].slots) <= Capacity(cont[k])
  /\ Capacity(cont[k]) < Len(cont[k].slots) + cont[k].seg
\* nothing outlives its container, and a destroyed object never comes back
NoLeak == (\A k \in Conts : ~Live(k)) => alive = {}
Once == [][alive' \ alive \subseteq (nobj + 1)..nobj' /\ (nobj' = nobj => alive' \subseteq alive)]_vars
\* an object that stays in a container stays in its slot
Stable == [][\A k \in Conts : Live(k) /\ ~cont'[k].gone /\ cont'[k].slots # <<>> =>
               \A i \in DOMAIN cont[k].slots :
                  cont[k].valid[i] /\ cont[k].slots[i] \in Valid(cont'[k])
                    => cont'[k].slots[i] = cont[k].slots[i]]_vars
=============================================================================
