---------------------------- MODULE LinearTrace ----------------------------
EXTENDS Linear, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
A == E.a
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Pairs == [i \in 1..((Len(A) - 2) \div 2) |-> <<A[2 * i + 1], A[2 * i + 2]>>]
\* solutions are reported in units of a ten-thousandth; iterations stop at some tolerance
Unit == 10000
Weight(m, i) == Sum([j \in 1..Len(m) |-> Abs(m[i][j])], Len(m))
Fits(x, y) == LET m == y.mat IN
  /\ Len(x) = Len(m)
  /\ \A i \in 1..Len(m) : Abs(Sum([j \in 1..Len(m) |-> m[i][j] * x[j]], Len(m)) - Unit * y.rhs[i]) <= Weight(m, i) + (IF y.exact THEN 0 ELSE 100)
Observed == /\ E.n = [s \in Systems |-> sys'[s].n]
            /\ E.labels = [s \in Systems |-> IF sys'[s].n > 0 THEN sys'[s].label ELSE 0]
            \* solutions stay until the next
            /\ \A s \in Systems : sys'[s].n > 0 /\ sys'[s].sol # NoAnswer =>
                 Fits(E.sol[s], sys'[s].sol)
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ sys' = [s \in Systems |-> NoSystem] /\ ksp' = [k \in Solvers |-> NoSolver] /\ told' = [b \in Labels |-> Untold]
  \/ Is("system") /\ System(A[1], A[2], A[3]) /\ Observed
  \/ Is("solver") /\ Solver(A[1], A[2]) /\ Observed
  \/ Is("entry") /\ Entry(A[1], A[2], A[3], A[4], A[5]) /\ Observed
  \/ Is("side") /\ Side(A[1], A[2], A[3], A[4]) /\ Observed
  \/ Is("band") /\ Band(A[1], A[2], A[3], A[4], A[5]) /\ Observed
  \/ Is("row") /\ Row(A[1], A[2], A[3], A[4]) /\ Observed
  \/ Is("sides") /\ Sides(A[1], A[2], A[3], A[4]) /\ Observed
  \/ Is("assemble") /\ Assemble(A[1]) /\ Observed
  \/ Is("options") /\ Options(A[1], Pairs) /\ Observed
  \/ Is("solve") /\ Solve(A[1]) /\ Observed
  \/ Is("destroy") /\ Destroy(A[1]) /\ Observed
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
