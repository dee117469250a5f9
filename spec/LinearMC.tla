------------------------------ MODULE LinearMC ------------------------------
EXTENDS Linear, Json
CONSTANTS Depth, MaxSize, MaxLength
VARIABLE path
mcvars == <<vars, path>>
Log(op) == path' = Append(path, op)
R(s) == {RandomElement(s)}
MCInit == Init /\ path = <<>>
\* every way to fill a system of two equations, in every order of setting and adding
Values == {1, 2}
SmallSolvable(s) == Made(s) /\ Dominant(sys[s].mat)
SmallNext ==
  /\ Len(path) < MaxLength
  /\ \/ System(1, 2, 1) /\ Log(<<"system", 1, 2, 1>>)
     \/ Solver(1, 1) /\ Log(<<"solver", 1, 1>>)
     \/ \E mode \in {"set", "add"}, i, j \in 1..2 : LET v == IF i = j THEN 3 ELSE i IN
          Put(1) /\ Entry(1, mode, i, j, v) /\ Log(<<"entry", 1, mode, i, j, v>>)
     \/ \E mode \in {"set", "add"}, i \in 1..2 : Put(1) /\ Side(1, mode, i, i) /\ Log(<<"side", 1, mode, i, i>>)
     \/ Made(1) /\ sys[1].mode # "none" /\ Assemble(1) /\ Log(<<"assemble", 1>>)
     \/ Solve(1) /\ Log(<<"solve", 1>>)
     \/ Put(1) /\ Destroy(1) /\ Log(<<"destroy", 1>>)
SmallSpec == MCInit /\ [][SmallNext]_mcvars
Now == path'[Len(path')][1] = "solve"
EmitEdge == Now => PrintT("@" \o ToJson(path'))
-----------------------------------------------------------------------------
\* every pair of options told to one of two solvers, on systems of the same or of two labels
Opt == {<<"type", 1>>, <<"type", 2>>, <<"pc", 1>>, <<"pc", 2>>, <<"pc", 3>>, <<"scale", 2>>, <<"scale", -2>>}
Prefix == <<<<"system", 1, 2, 1>>, <<"solver", 1, 1>>, <<"entry", 1, "set", 1, 1, 3>>, <<"entry", 1, "set", 1, 2, 1>>, <<"entry", 1, "set", 2, 2, -2>>,
            <<"side", 1, "set", 1, 4>>, <<"side", 1, "add", 2, 3>>>>
Ready(b) == [n |-> 2, mat |-> <<<<3, 1>>, <<0, -2>>>>, rhs |-> <<4, 3>>, mode |-> "set", label |-> b, sol |-> NoAnswer]
Again(s, b, op) == [op EXCEPT ![2] = s]
Two(b) == Prefix \o <<<<"system", 2, 2, b>>, <<"solver", 2, 2>>>> \o [i \in 1..5 |-> Again(2, b, Prefix[i + 2])]
OptInit == \E b \in Labels : /\ sys = [s \in Systems |-> IF s = 1 THEN Ready(1) ELSE IF s = 2 THEN Ready(b) ELSE NoSystem]
                             /\ ksp = [k \in Solvers |-> IF k <= 2 THEN [on |-> k, todo |-> Untold] ELSE NoSolver]
                             /\ told = [x \in Labels |-> Untold] /\ path = Two(b)
Flat(opts) == [i \in 1..(2 * Len(opts)) |-> IF i % 2 = 1 THEN opts[(i + 1) \div 2][1] ELSE opts[i \div 2][2]]
Steps == Len(path) - Len(Two(1))
OptNext ==
  \/ /\ Steps < 2 /\ \E k \in {1, 2} : \E o, p \in Opt : o[1] # p[1] /\ Options(k, <<o, p>>) /\ Log(<<"options", k, 0>> \o Flat(<<o, p>>))
  \/ /\ Steps \in 2..3 /\ \E k \in {1, 2} : Solve(k) /\ Log(<<"solve", k>>)
OptSpec == OptInit /\ [][OptNext]_mcvars
-----------------------------------------------------------------------------
\* (not constant: drawn again in every state)
Z == 0 * Len(path)
Modes == R({m \in {"set", "add"} : Z = 0})
Heavy == R({-9 + Z, -8, 7, 9})
Any9 == R((-9 + Z)..9)
Upto3 == R(1..(3 + Z))
Gaps == R(0..(2 + Z))
Value(i, j) == IF i = j THEN RandomElement({-9, -8, -7, -6, 5, 6, 7, 8}) ELSE RandomElement(-2..2)
Small(s) == \A i, j \in 1..sys[s].n : Abs(sys[s].mat[i][j]) < 30
LiveSystems == {s \in Systems : Made(s)}
LiveSolvers == {k \in Solvers : Put(k)}
Todo(n) == [i \in 1..n |-> RandomElement(Opt \cup {<<"scale", 3>>, <<"scale", -1>>})]
\* fill a diagonal that is too light
Light(s) == {i \in 1..sys[s].n : Abs(sys[s].mat[i][i]) <= Sum([j \in 1..sys[s].n |-> IF j = i THEN 0 ELSE Abs(sys[s].mat[i][j])], sys[s].n)}
Try(t) ==
  CASE t = 1 -> Systems # LiveSystems /\ \E s \in R(Systems \ LiveSystems), n \in R({i \in 1..MaxSize : i > 0 * Len(path)}), b \in R({b \in Labels : b > 0 * Len(path)}) : System(s, n, b) /\ Log(<<"system", s, n, b>>)
    [] t = 2 -> LiveSystems # {} /\ Solvers # LiveSolvers /\ \E k \in R(Solvers \ LiveSolvers), s \in R(LiveSystems) : Solver(k, s) /\ Log(<<"solver", k, s>>)
    [] t \in 3..9 -> LiveSystems # {} /\ \E s \in R(LiveSystems) : \E i, j \in R(1..sys[s].n) : \E mode \in Modes : \E v \in {Value(i, j)} :
                       Small(s) /\ Entry(s, mode, i, j, v) /\ Log(<<"entry", s, mode, i, j, v>>)
    [] t \in 10..14 -> LiveSystems # {} /\ \E s \in R(LiveSystems) : Light(s) # {} /\ \E i \in R(Light(s)) : \E mode \in Modes : \E v \in Heavy :
                       Small(s) /\ Entry(s, mode, i, i, v) /\ Log(<<"entry", s, mode, i, i, v>>)
    [] t \in 15..18 -> LiveSystems # {} /\ \E s \in R(LiveSystems) : \E i \in R(1..sys[s].n) : \E mode \in Modes : \E v \in Any9 :
                       Abs(sys[s].rhs[i]) < 50 /\ Side(s, mode, i, v) /\ Log(<<"side", s, mode, i, v>>)
    [] t = 19 -> LiveSystems # {} /\ \E s \in R(LiveSystems) : Assemble(s) /\ Log(<<"assemble", s>>)
    [] t \in 20..21 -> LiveSolvers # {} /\ \E k \in R(LiveSolvers) : \E n \in Upto3 : \E o \in {Todo(n)} : \E y \in Gaps : Options(k, o) /\ Log(<<"options", k, y>> \o Flat(o))
    [] t \in 22..26 -> LiveSolvers # {} /\ \E k \in R(LiveSolvers) : Solve(k) /\ Log(<<"solve", k>>)
    [] t = 27 -> LiveSolvers # {} /\ RandomElement(1..(4 + 0 * Len(path))) = 1 /\ \E k \in R(LiveSolvers) : Destroy(k) /\ Log(<<"destroy", k>>)
    [] OTHER -> FALSE
-----------------------------------------------------------------------------
\* large systems
Largest(s) == LET m == sys[s].mat IN \A i \in 1..sys[s].n : Abs(m[i][i]) < 200 /\ \A j \in 1..sys[s].n : Abs(m[i][j]) < 60
Big == R({n \in {7, 12, 17, 33, 48} : n > 0 * Len(path)})
Steady == 30 + RandomElement(1..(9 + Z))
BigTry(t) ==
  CASE t = 1 -> Systems # LiveSystems /\ \E s \in R(Systems \ LiveSystems), n \in Big, b \in R({b \in Labels : b > 0 * Len(path)}) : System(s, n, b) /\ Log(<<"system", s, n, b>>)
    [] t = 2 -> LiveSystems # {} /\ Solvers # LiveSolvers /\ \E k \in R(Solvers \ LiveSolvers), s \in R(LiveSystems) : Solver(k, s) /\ Log(<<"solver", k, s>>)
    [] t \in 3..6 -> LiveSystems # {} /\ \E s \in R(LiveSystems) : \E mode \in Modes : \E d \in R({Steady, -Steady}) : \E k \in R(1..(sys[s].n - 1)) : \E v \in R((-3 + Z)..3) :
                       Largest(s) /\ Band(s, mode, d, k, v) /\ Log(<<"band", s, mode, d, k, v>>)
    [] t \in 7..9 -> LiveSystems # {} /\ \E s \in R(LiveSystems) : \E mode \in Modes : \E i \in R(1..sys[s].n) : \E v \in R((-1 + Z)..1) :
                       Largest(s) /\ Row(s, mode, i, v) /\ Log(<<"row", s, mode, i, v>>)
    [] t \in 10..12 -> LiveSystems # {} /\ \E s \in R(LiveSystems) : \E i \in R(1..sys[s].n) : \E j \in R({i, 1, sys[s].n}) : \E mode \in Modes : \E v \in {IF i = j THEN 60 ELSE 2} :
                       Largest(s) /\ Entry(s, mode, i, j, v) /\ Log(<<"entry", s, mode, i, j, v>>)
    [] t \in 13..14 -> LiveSystems # {} /\ \E s \in R(LiveSystems) : \E mode \in Modes : \E v, w \in Any9 :
                       (\A i \in 1..sys[s].n : Abs(sys[s].rhs[i]) < 60) /\ Sides(s, mode, v, w) /\ Log(<<"sides", s, mode, v, w>>)
    [] t = 15 -> LiveSystems # {} /\ \E s \in R(LiveSystems) : Assemble(s) /\ Log(<<"assemble", s>>)
    [] t = 16 -> LiveSolvers # {} /\ \E k \in R(LiveSolvers) : \E n \in Upto3 : \E o \in {Todo(n)} : \E y \in Gaps : Options(k, o) /\ Log(<<"options", k, y>> \o Flat(o))
    [] t \in 17..20 -> LiveSolvers # {} /\ \E k \in R(LiveSolvers) : Solve(k) /\ Log(<<"solve", k>>)
    [] t = 21 -> LiveSolvers # {} /\ RandomElement(1..(3 + 0 * Len(path))) = 1 /\ \E k \in R(LiveSolvers) : Destroy(k) /\ Log(<<"destroy", k>>)
    [] OTHER -> FALSE
BigChoices == (IF Systems # LiveSystems THEN {1} ELSE {}) \cup (IF LiveSystems # {} THEN (IF Solvers # LiveSolvers THEN 2..15 ELSE 3..15) ELSE {})
              \cup (IF LiveSolvers # {} THEN 16..21 ELSE {})
BigNext == (\E a \in 1..2 : \E t \in R(BigChoices) : BigTry(t)) \/ UNCHANGED mcvars
BigSpec == MCInit /\ [][BigNext]_mcvars
-----------------------------------------------------------------------------
Choices == (IF Systems # LiveSystems THEN {1} ELSE {}) \cup (IF LiveSystems # {} THEN (IF Solvers # LiveSolvers THEN 2..19 ELSE 3..19) ELSE {})
           \cup (IF LiveSolvers # {} THEN 20..27 ELSE {})
SimNext == (\E a \in 1..3 : \E t \in R(Choices) : Try(t)) \/ UNCHANGED mcvars
SimSpec == MCInit /\ [][SimNext]_mcvars
EmitRun == IF TLCGet("level") = Depth /\ path # <<>> THEN PrintT("@" \o ToJson(path)) ELSE TRUE
View == <<vars, Len(path)>>
=============================================================================
