---------------------------- MODULE RefusalsTrace ----------------------------
EXTENDS Refusals, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
A == E.a
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
\* simplices of each dimension; where points are; what fields hold; what the handles are
Observed ==
  /\ E.nsimp = [n \in 1..4 |-> Cardinality({x \in reg' : Dim(x.s) = n - 1})]
  /\ \A c \in Frames : {<<E.at[c][i].p, E.at[c][i].x>> : i \in DOMAIN E.at[c]} = {<<p, at'[c][p]>> : p \in {q \in 1..V : at'[c][q] # Nowhere}}
                       /\ Len(E.at[c]) = Cardinality({q \in 1..V : at'[c][q] # Nowhere})
  /\ \A f \in Fields : {<<E.field[f][i].p, E.field[f][i].x>> : i \in DOMAIN E.field[f]} = {<<p, field'[f][p]>> : p \in {q \in 1..V : field'[f][q] # None}}
                       /\ Len(E.field[f]) = Cardinality({q \in 1..V : field'[f][q] # None})
  /\ E.ncells = Len(cells')
  /\ \A k \in Handles : IF h'[k] = Null THEN E.h[k] = <<>>
                        ELSE Range(E.h[k]) = h'[k].s /\ (Len(E.h[k]) > 1 => Oriented(E.h[k]) = h'[k])
TInit == RInit /\ l = 1
TNext ==
  \/ Is("Reset") /\ nv' = 0 /\ vh' = {} /\ fp' = <<>> /\ reg' = {} /\ h' = [k \in Handles |-> Null]
     /\ at' = [c \in Frames |-> [p \in 1..V |-> Nowhere]] /\ field' = [f \in Fields |-> [p \in 1..V |-> None]] /\ cells' = <<>>
  \/ Is("node") /\ Node /\ Observed
  \/ Is("simplex") /\ Simplex(A[1], Tail(A)) /\ Observed
  \/ Is("tip") /\ Oriented0(A[1], A[2], A[3]) /\ Observed
  \/ Is("flip") /\ Flipped(A[1], A[2]) /\ Observed
  \/ Is("place") /\ Place(A[1], A[2], <<A[3], A[4]>>) /\ Observed
  \/ Is("fill") /\ Fill(A[1], A[2], A[3]) /\ Observed
  \/ Is("write") /\ Write(A[1], A[2], A[3]) /\ Observed
  \/ Is("insert") /\ Insert(A) /\ Observed
  \/ Is("try") /\ Try(E.what, A) /\ E.out = Outcome(E.what, A) /\ Observed
TSpec == TInit /\ [][TNext]_<<rvars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
