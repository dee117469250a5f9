------------------------------- MODULE Linear -------------------------------
(* Linear systems and the solvers put on them. A system is a matrix and a    *)
(* right-hand side of whole numbers; entries are set or added to, but not    *)
(* both between two assemblies of the matrix. A solver is told what to do by *)
(* options; they are kept, under the label of its system, for all solvers of *)
(* that label that are told something later.                                 *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Systems, Solvers, Labels
VARIABLES sys,    \* Systems -> [n, mat, rhs, mode, label, sol], or NoSystem
          ksp,    \* Solvers -> [on, todo], or NoSolver
          told    \* Labels -> options
vars == <<sys, ksp, told>>
\* what is not told is 0; "type": 1 apply the preconditioner once, 2 one step of Richardson;
\* "pc": 1 exact, 2 none, 3 diagonal; "scale" of Richardson
Keys == {"type", "pc", "scale"}
Untold == [k \in Keys |-> 0]
NoSystem == [n |-> 0]
NoSolver == [on |-> 0]
NoAnswer == [mat |-> <<>>]
Init == sys = [s \in Systems |-> NoSystem] /\ ksp = [k \in Solvers |-> NoSolver] /\ told = [b \in Labels |-> Untold]
Made(s) == sys[s].n > 0
Put(k) == ksp[k].on # 0
SolversOf(s) == {k \in Solvers : ksp[k].on = s}
System(s, n, b) == /\ ~Made(s) /\ n > 0 /\ b \in Labels
                   /\ sys' = [sys EXCEPT ![s] = [n |-> n, mat |-> [i \in 1..n |-> [j \in 1..n |-> 0]], rhs |-> [i \in 1..n |-> 0],
                                                 mode |-> "none", label |-> b, sol |-> NoAnswer]]
                   /\ UNCHANGED <<ksp, told>>
Solver(k, s) == ~Put(k) /\ Made(s) /\ ksp' = [ksp EXCEPT ![k] = [on |-> s, todo |-> Untold]] /\ UNCHANGED <<sys, told>>
\* a solver goes with its system, where it is the last on it
Destroy(k) == /\ Put(k) /\ SolversOf(ksp[k].on) = {k}
              /\ sys' = [sys EXCEPT ![ksp[k].on] = NoSystem] /\ ksp' = [ksp EXCEPT ![k] = NoSolver] /\ UNCHANGED told
Entry(s, mode, i, j, v) ==
  /\ Made(s) /\ i \in 1..sys[s].n /\ j \in 1..sys[s].n /\ sys[s].mode \in {"none", mode}
  /\ sys' = [sys EXCEPT ![s].mat[i][j] = IF mode = "set" THEN v ELSE @ + v, ![s].mode = mode]
  /\ UNCHANGED <<ksp, told>>
Side(s, mode, i, v) == /\ Made(s) /\ i \in 1..sys[s].n
                       /\ sys' = [sys EXCEPT ![s].rhs[i] = IF mode = "set" THEN v ELSE @ + v] /\ UNCHANGED <<ksp, told>>
\* many entries at once: d on the diagonal and w beside it, at a distance of k; a whole row; the whole side
Put2(mode, old, v) == IF mode = "set" THEN v ELSE old + v
Band(s, mode, d, k, w) ==
  /\ Made(s) /\ k > 0 /\ sys[s].mode \in {"none", mode}
  /\ sys' = [sys EXCEPT ![s].mat = [i \in 1..sys[s].n |-> [j \in 1..sys[s].n |->
                  IF i = j THEN Put2(mode, @[i][j], d) ELSE IF i - j \in {k, -k} THEN Put2(mode, @[i][j], w) ELSE @[i][j]]],
                        ![s].mode = mode]
  /\ UNCHANGED <<ksp, told>>
Row(s, mode, i, w) ==
  /\ Made(s) /\ i \in 1..sys[s].n /\ sys[s].mode \in {"none", mode}
  /\ sys' = [sys EXCEPT ![s].mat[i] = [j \in 1..sys[s].n |-> Put2(mode, @[j], w)], ![s].mode = mode]
  /\ UNCHANGED <<ksp, told>>
Sides(s, mode, a, b) == /\ Made(s) /\ sys' = [sys EXCEPT ![s].rhs = [i \in 1..sys[s].n |-> Put2(mode, @[i], a + b * (i % 5))]]
                        /\ UNCHANGED <<ksp, told>>
Assemble(s) == Made(s) /\ sys' = [sys EXCEPT ![s].mode = "none"] /\ UNCHANGED <<ksp, told>>
\* a list of options, the last word on each counting
RECURSIVE Tell(_, _)
Tell(opts, before) == IF opts = <<>> THEN before
                      ELSE Tell(Tail(opts), [before EXCEPT ![opts[1][1]] = opts[1][2]])
Options(k, opts) ==
  LET b == sys[ksp[k].on].label
      now == Tell(opts, told[b])
  IN /\ Put(k) /\ told' = [told EXCEPT ![b] = now]
     /\ ksp' = [ksp EXCEPT ![k].todo = now]
     /\ UNCHANGED sys
-----------------------------------------------------------------------------
\* determinants, and the solution as quotients of them
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Minor(m, i, j) == [r \in 1..(Len(m) - 1) |-> [c \in 1..(Len(m) - 1) |-> m[IF r < i THEN r ELSE r + 1][IF c < j THEN c ELSE c + 1]]]
RECURSIVE Det(_)
Det(m) == IF Len(m) = 1 THEN m[1][1]
          ELSE Sum([j \in 1..Len(m) |-> IF m[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * m[1][j] * Det(Minor(m, 1, j))], Len(m))
Replaced(m, j, b) == [r \in 1..Len(m) |-> [c \in 1..Len(m) |-> IF c = j THEN b[r] ELSE m[r][c]]]
Cramer(m, b) == LET d == Det(m) IN [j \in 1..Len(m) |-> <<Det(Replaced(m, j, b)), d>>]
Times(m, b) == [i \in 1..Len(m) |-> Sum([j \in 1..Len(m) |-> m[i][j] * b[j]], Len(m))]
Dominant(m) == \A i \in 1..Len(m) : Abs(m[i][i]) > Sum([j \in 1..Len(m) |-> IF j = i THEN 0 ELSE Abs(m[i][j])], Len(m))
\* the method a solver is told to use: what it returns is c times the solution of a system, exact or nearly so
Known(todo) == (todo.type = 0) = (todo.pc = 0)
Diagonal(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> IF i = j THEN m[i][i] ELSE 0]]
Identity(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
Solved(todo, m, b) ==
  [exact |-> todo.type # 0,
   mat |-> IF todo.type = 0 \/ todo.pc = 1 THEN m ELSE IF todo.pc = 2 THEN Identity(Len(m)) ELSE Diagonal(m),
   rhs |-> LET c == IF todo.type = 2 /\ todo.scale # 0 THEN todo.scale ELSE 1 IN [i \in 1..Len(m) |-> c * b[i]]]
Solve(k) == LET s == ksp[k].on IN
  /\ Put(k) /\ Dominant(sys[s].mat) /\ Known(ksp[k].todo)
  /\ sys' = [sys EXCEPT ![s].sol = Solved(ksp[k].todo, sys[s].mat, sys[s].rhs), ![s].mode = "none"]
  /\ UNCHANGED <<ksp, told>>
-----------------------------------------------------------------------------
TypeOK == /\ \A s \in Systems : Made(s) => Len(sys[s].mat) = sys[s].n /\ Len(sys[s].rhs) = sys[s].n /\ sys[s].mode \in {"none", "set", "add"}
          /\ \A k \in Solvers : Put(k) => Made(ksp[k].on)
\* Cramer's rule gives a solution: the matrix times it is the right-hand side
Solves == \A s \in Systems : Made(s) /\ Dominant(sys[s].mat) =>
  LET x == Cramer(sys[s].mat, sys[s].rhs)
      d == Det(sys[s].mat)
  IN d # 0 /\ Times(sys[s].mat, [i \in DOMAIN x |-> x[i][1]]) = [i \in 1..sys[s].n |-> d * sys[s].rhs[i]]
\* solvers of other labels are not told
Private == [][\A k \in Solvers : (Put(k) /\ ksp'[k].on = ksp[k].on /\ ksp'[k].todo # ksp[k].todo) => told'[sys[ksp[k].on].label] # Untold]_vars
=============================================================================
