--------------------------- MODULE MaterialsTrace ---------------------------
EXTENDS Materials, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
A == E.a
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Flat4(i, j, k, m) == 27 * (i - 1) + 9 * (j - 1) + 3 * (k - 1) + m
Flat2(i, j) == 3 * (i - 1) + j
\* what is asked of the materials after an operation is told of the state after it
ElasticTold ==
  /\ E.energy = EnergyOf(M)
  /\ \E s \in {StressOf(M)} : \A p \in Set3 : E.stress[Flat2(p[1], p[2])] = s[p[1]][p[2]]
  /\ \A i, j, k, m \in I3 : E.moduli[Flat4(i, j, k, m)] = Moduli(i, j, k, m)
  \* the consistency test accepts the material, and no other that differs in a component of stress or tangents
  /\ E.consistent /\ E.strict
Near(x, y, slack) == x - y \in (-slack)..slack
GentTold ==
  /\ E.bears = Bears
  /\ Bears =>
       \* energies: Room from that of mu; that of kappa is A^4 / 2, and there is none where J is 1
       /\ E.room = Room(M)
       /\ E.isochoric = (DetM = Q * Q * Q)
       /\ E.quartic = (IF E.isochoric THEN 0 ELSE 1000000)
       /\ E.additive
       /\ \A i, j \in I3 : /\ E.smu[Flat2(i, j)] = KirchhoffMu(i, j)
                           /\ E.skappa[Flat2(i, j)] = (IF E.isochoric THEN 0 ELSE KirchhoffKappa(i, j))
       /\ \A i, b, k, d \in I3 :
            /\ E.tmu[Flat4(i, b, k, d)] = TangentMu(i, b, k, d)
            /\ LET t == TangentKappa(i, b, k, d) IN
               IF E.isochoric THEN E.tkappa[Flat4(i, b, k, d)] = 0
               ELSE Near(1000 * E.tkappa[Flat4(i, b, k, d)] - 1000 * t[1], t[2] * E.A, 1000 + (IF t[2] < 0 THEN -t[2] ELSE t[2]))
       /\ E.gentconsistent
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ M' = Id(Q) /\ lame' = <<1, 1>> /\ gent' = <<1, 1, 3>>
  \/ Is("nudge") /\ Nudge(A[1], A[2], A[3])
  \/ Is("rotate") /\ Rotate(A[1], A[2] = 1)
  \/ Is("mirror") /\ Mirror
  \/ Is("flip") /\ Flip
  \/ Is("rest") /\ Rest
  \/ Is("lame") /\ Lame(A[1], A[2])
  \/ Is("gent") /\ GentOf(A[1], A[2], A[3])
  \/ Is("told") /\ UNCHANGED vars /\ ElasticTold /\ GentTold
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
