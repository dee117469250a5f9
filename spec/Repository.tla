----------------------------- MODULE Repository -----------------------------
(* mito::utilities::Repository: resources created and destroyed in a        *)
(* segmented store, checked out through counted handles. Objects are        *)
(* numbered as they are constructed.                                        *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Handles

VARIABLES seg,      \* segment size; 0: no repository
          slots,    \* per slot, the object constructed in it last
          used,     \* per slot, whether that object is registered
          nseg,     \* segments allocated
          h,        \* Handles -> object or 0
          nobj,     \* objects constructed so far
          alive     \* objects constructed and not destroyed

vars == <<seg, slots, used, nseg, h, nobj, alive>>

Init == seg = 0 /\ slots = <<>> /\ used = <<>> /\ nseg = 0 /\ h = [k \in Handles |-> 0]
        /\ nobj = 0 /\ alive = {}

Live == seg > 0
Free == {i \in DOMAIN slots : ~used[i]}
Registered == {slots[i] : i \in {j \in DOMAIN slots : used[j]}}
Refs(x) == Cardinality({k \in Handles : h[k] = x})
Size == Cardinality(Registered)
Capacity == nseg * seg
SlotOf(x) == CHOOSE i \in DOMAIN slots : used[i] /\ slots[i] = x
\* an iteration visits the registered objects that are in use, in slot order
RECURSIVE Select(_, _)
Select(i, acc) == IF i > Len(slots) THEN acc
                  ELSE Select(i + 1, IF used[i] /\ Refs(slots[i]) > 0 THEN Append(acc, slots[i]) ELSE acc)
InUse == Select(1, <<>>)

New(n) == /\ ~Live
          /\ seg' = n /\ slots' = <<>> /\ used' = <<>> /\ nseg' = 0
          /\ UNCHANGED <<h, nobj, alive>>

\* a new object, in slot i, bound to handle k
MayTake(i) == IF Free # {} THEN i \in Free ELSE i = Len(slots) + 1
Emplace(k, i) ==
  /\ Live /\ MayTake(i)
  /\ nobj' = nobj + 1 /\ alive' = alive \cup {nobj + 1}
  /\ IF Free # {}
       THEN slots' = [slots EXCEPT ![i] = nobj + 1] /\ used' = [used EXCEPT ![i] = TRUE] /\ UNCHANGED nseg
       ELSE slots' = Append(slots, nobj + 1) /\ used' = Append(used, TRUE)
            /\ nseg' = IF Len(slots) = Capacity THEN nseg + 1 ELSE nseg
  /\ h' = [h EXCEPT ![k] = nobj + 1]
  /\ UNCHANGED seg

Copy(k, j) == Live /\ h' = [h EXCEPT ![k] = h[j]] /\ UNCHANGED <<seg, slots, used, nseg, nobj, alive>>
Drop(k) == Live /\ h' = [h EXCEPT ![k] = 0] /\ UNCHANGED <<seg, slots, used, nseg, nobj, alive>>
\* check out, through its id, an object that is registered
Lookup(k, x) == /\ Live /\ x \in Registered
                /\ h' = [h EXCEPT ![k] = x] /\ UNCHANGED <<seg, slots, used, nseg, nobj, alive>>
\* check out the n-th object of an iteration
Take(k, n) == /\ Live /\ n \in DOMAIN InUse
              /\ h' = [h EXCEPT ![k] = InUse[n]] /\ UNCHANGED <<seg, slots, used, nseg, nobj, alive>>

MayErase(k) == h[k] # 0 /\ Refs(h[k]) = 1
\* the object is erased, and destroyed, only through its last handle
Erase(k) == /\ Live /\ MayErase(k)
            /\ used' = [used EXCEPT ![SlotOf(h[k])] = FALSE]
            /\ alive' = alive \ {h[k]}
            /\ h' = [h EXCEPT ![k] = 0]
            /\ UNCHANGED <<seg, slots, nseg, nobj>>
\* a null handle, or an object that others hold: nothing happens
EraseNot(k) == Live /\ ~MayErase(k) /\ UNCHANGED vars

\* the end of the repository, after that of the handles
Destroy == /\ Live
           /\ seg' = 0 /\ slots' = <<>> /\ used' = <<>> /\ nseg' = 0 /\ alive' = alive \ Registered
           /\ h' = [k \in Handles |-> 0]
           /\ UNCHANGED nobj

\* the choice of the implementation is among the free slots; any will do here
EmplaceI(k) == Live /\ \E i \in DOMAIN slots \cup {Len(slots) + 1} :
                 /\ i = (IF Free # {} THEN CHOOSE j \in Free : \A m \in Free : j <= m ELSE Len(slots) + 1)
                 /\ Emplace(k, i)
Next == \/ \E n \in 1..3 : New(n)
        \/ \E k \in Handles : \/ EmplaceI(k) \/ Drop(k) \/ Erase(k) \/ EraseNot(k)
                              \/ \E j \in Handles : Copy(k, j)
                              \/ \E x \in 1..nobj : Lookup(k, x) \/ Take(k, x)
        \/ Destroy
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
TypeOK == h \in [Handles -> 0..nobj] /\ alive \subseteq 1..nobj /\ Len(slots) = Len(used)
\* what is registered is alive, and nothing else is
AliveExact == alive = Registered
\* no handle dangles
NoDangling == \A k \in Handles : h[k] # 0 => h[k] \in alive
OneSlotEach == Cardinality({slots[i] : i \in DOMAIN slots}) = Len(slots)
NoWaste == Live => Len(slots) <= Capacity /\ Capacity < Len(slots) + seg
\* an object dies only through its last handle or with the repository, and never comes back
DiesRight == [][\A x \in alive \ alive' : seg' = 0 \/ Refs(x) = 1]_vars
NeverBack == [][alive' \ alive \subseteq (nobj + 1)..nobj']_vars
Stable == [][seg' # 0 => \A x \in Registered \cap Registered' : SlotOf(x) = SlotOf(x)']_vars
=============================================================================
