--------------------------- MODULE Combinatorics ---------------------------
(* Orders of a finite list of distinct things, and how they come about from each other by swaps.
   The sign of an order with respect to another is what the number of swaps leading from one to
   the other is, even or odd: it cannot depend on the swaps chosen. (P12) *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANT MaxN
VARIABLES ref,     \* the list as it was first given
          cur,     \* the list as it is now
          sign     \* what the swaps so far amount to
vars == <<ref, cur, sign>>
Distinct(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
TypeOK == /\ Distinct(ref) /\ Distinct(cur) /\ Len(ref) = Len(cur) /\ Range(ref) = Range(cur)
          /\ sign \in {-1, 1}
Swapped(q, i, j) == [q EXCEPT ![i] = q[j], ![j] = q[i]]
Begin(q) == Distinct(q) /\ q # <<>> /\ ref' = q /\ cur' = q /\ sign' = 1
Swap(i, j) == /\ i \in DOMAIN cur /\ j \in DOMAIN cur /\ i # j
              /\ cur' = Swapped(cur, i, j) /\ sign' = -sign /\ UNCHANGED ref
\* the first element goes last: Len - 1 swaps of neighbours
Rotate == /\ cur' = Tail(cur) \o <<Head(cur)>> /\ UNCHANGED ref
          /\ sign' = IF Len(cur) % 2 = 1 THEN sign ELSE -sign
\* what was the outcome becomes the reference
Rebase == /\ ref' = cur /\ cur' = ref /\ UNCHANGED sign
\* an independent definition: the number of pairs that are out of order
Pos(q, x) == CHOOSE i \in DOMAIN q : q[i] = x
Inversions(q, r) == Cardinality({p \in (DOMAIN q) \X (DOMAIN q) : p[1] < p[2] /\ Pos(r, q[p[1]]) > Pos(r, q[p[2]])})
SignIsParity == sign = (IF Inversions(cur, ref) % 2 = 0 THEN 1 ELSE -1)
\* lists, of equal length, with repetitions: the same elements, as many times each
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
SameElements(q, r) == Len(q) = Len(r) /\ \A x \in Range(q) \cup Range(r) : Count(q, x) = Count(r, x)
Init == ref = <<1>> /\ cur = <<1>> /\ sign = 1
=============================================================================
