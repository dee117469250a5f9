------------------------- MODULE CombinatoricsTrace -------------------------
EXTENDS Combinatorics, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
A == E.a
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
\* every container gives the same answers
Observed ==
  /\ \A i \in DOMAIN E.sign : E.sign[i] = sign'
  \* the swaps that sort one list like the other: enough, no more than elements, and of the parity of the sign
  /\ \A i \in DOMAIN E.swaps : E.swaps[i] \in 0..(Len(cur') - 1) /\ (E.swaps[i] % 2 = 0) = (sign' = 1)
                                /\ (E.swaps[i] = 0) = (cur' = ref')
  /\ \A i \in DOMAIN E.same : E.same[i]
Half == Len(A) \div 2
Same == /\ UNCHANGED vars
        /\ \A i \in DOMAIN E.same : E.same[i] = SameElements(SubSeq(A, 1, Half), SubSeq(A, Half + 1, Len(A)))
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ ref' = <<1>> /\ cur' = <<1>> /\ sign' = 1
  \/ Is("begin") /\ Begin(A) /\ Observed
  \/ Is("swap") /\ Swap(A[1], A[2]) /\ Observed
  \/ Is("rotate") /\ Rotate /\ Observed
  \/ Is("rebase") /\ Rebase /\ Observed
  \/ Is("same") /\ Same
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
