-------------------------------- MODULE Fem --------------------------------
(* Finite elements of degree K on a mesh of cells of dimension N = D: the nodes of the
   discretization, those that are constrained, and the matrices, right hand sides, fields and
   norms of a function space. (P26, P27, P29)
   Functions on a cell are homogeneous polynomials in the barycentric coordinates of its nodes:
   integer coefficients of the tuples of exponents. *)
EXTENDS Measure, TLC
CONSTANT K
VARIABLE fixed       \* facets where the functions of the space are constrained
fvars == <<vars, fixed>>
Nodes == 1..(N + 1)
Exps(m) == {e \in [Nodes -> 0..m] : SumTo(e, N + 1) = m}
Exps0 == Exps(0)
Exps1 == Exps(1)
Exps2 == Exps(2)
Exps3 == Exps(3)
Exps4 == Exps(4)
ExpsOf(m) == CASE m = 0 -> Exps0 [] m = 1 -> Exps1 [] m = 2 -> Exps2 [] m = 3 -> Exps3 [] m = 4 -> Exps4
Pow(x, n) == IF n = 0 THEN 1 ELSE x^n
Degree(p) == SumTo(CHOOSE e \in DOMAIN p : TRUE, N + 1)
Mult(p, q) == TLCEval(
  [e \in ExpsOf(Degree(p) + Degree(q)) |->
     LET below == {f \in DOMAIN p : p[f] # 0 /\ \A i \in Nodes : f[i] <= e[i]}
     IN SumOn(below, [f \in below |-> p[f] * q[[i \in Nodes |-> e[i] - f[i]]]])])
Plus(p, q) == [e \in DOMAIN p |-> p[e] + q[e]]
Times_(k, p) == [e \in DOMAIN p |-> k * p[e]]
\* the affine function that takes values v at the nodes
Linear(v) == [e \in Exps1 |-> SumTo([i \in Nodes |-> e[i] * v[i]], N + 1)]
Unit(i) == Linear([j \in Nodes |-> IF i = j THEN 1 ELSE 0])
Const(k) == [e \in Exps0 |-> k]
AllOne == Linear([j \in Nodes |-> 1])
RECURSIVE Elevate(_, _)
Elevate(p, m) == IF Degree(p) >= m THEN p ELSE Elevate(Mult(p, AllOne), m)
Deriv(p, i) == [e \in ExpsOf(Degree(p) - 1) |-> (e[i] + 1) * p[[e EXCEPT ![i] = @ + 1]]]
\* (N + degree)! times the mean of p, over N!
Mean(p) == SumOn(DOMAIN p, [e \in DOMAIN p |-> p[e] * ProductTo([i \in Nodes |-> Fact(e[i])], N + 1)])
\* at barycentric coordinates b / 4: 4^degree times the value
Eval(p, b) == SumOn(DOMAIN p, [e \in DOMAIN p |-> p[e] * ProductTo([i \in Nodes |-> Pow(b[i], e[i])], N + 1)])
-----------------------------------------------------------------------------
\* the nodes of an element: the nodes of the cell, and the middles of its edges when K = 2
Edges == IF N = 1 THEN <<<<1, 2>>>> ELSE <<<<1, 2>>, <<2, 3>>, <<3, 1>>>>
Local == [i \in Nodes |-> <<i>>] \o (IF K = 1 THEN <<>> ELSE Edges)
NN == Len(Local)
Shape == TLCEval([a \in 1..NN |->
  CASE K = 1 -> Unit(a)
    [] K = 2 /\ a \in Nodes -> Mult(Unit(a), Linear([j \in Nodes |-> IF j = a THEN 1 ELSE -1]))
    [] OTHER -> Times_(4, Mult(Unit(Local[a][1]), Unit(Local[a][2])))])
DShape == TLCEval([a \in 1..NN |-> [i \in Nodes |-> Deriv(Shape[a], i)]])
MassRef == TLCEval([a \in 1..NN |-> [b \in 1..NN |-> Mean(Mult(Shape[a], Shape[b]))]])
GradRef == TLCEval([a \in 1..NN |-> [b \in 1..NN |-> [i \in Nodes |-> [j \in Nodes |-> Mean(Mult(DShape[a][i], DShape[b][j]))]]]])
\* Content(c) times the gradients of the barycentric coordinates
Slopes(c) ==
  LET x(i) == pos[c[i]] IN
  IF N = 1 THEN <<<<-1>>, <<1>>>>
  ELSE [i \in Nodes |-> LET j == (i % 3) + 1
                            k == (j % 3) + 1
                        IN <<x(j)[2] - x(k)[2], x(k)[1] - x(j)[1]>>]
Dot(u, v) == SumTo([i \in Dim |-> u[i] * v[i]], D)
\* elementary matrices and vectors, their denominators
Mass(c, a, b) == Volume(c) * MassRef[a][b]
MassDen == Fact(N + 2 * K)
Stiff(c, a, b) == LET s == Slopes(c) IN
  SumTo([i \in Nodes |-> SumTo([j \in Nodes |-> GradRef[a][b][i][j] * Dot(s[i], s[j])], N + 1)], N + 1)
StiffDen(c) == Volume(c) * Fact(N + 2 * K - 2)
RECURSIVE Product(_, _, _)
Product(c, L, r) == IF r = 0 THEN Const(1) ELSE Mult(Product(c, L, r - 1), Linear([i \in Nodes |-> Value(L[r], pos[c[i]])]))
OnCell(c, L) == Product(c, L, Len(L))
Source(c, P, a) == Volume(c) * Mean(Mult(Shape[a], P))
SourceDen(r) == Fact(N + K + r)
-----------------------------------------------------------------------------
\* the nodes of the discretization are sets of nodes of the mesh, in order of appearance
Conn(c) == [a \in 1..NN |-> {c[i] : i \in ToSet(Local[a])}]
RECURSIVE Gather(_, _)
Gather(q, k) == IF k = 0 THEN <<>> ELSE LET g == Gather(q, k - 1) IN IF q[k] \in ToSet(g) THEN g ELSE Append(g, q[k])
RECURSIVE ConnTo(_)
ConnTo(m) == IF m = 0 THEN <<>> ELSE ConnTo(m - 1) \o Conn(cells[m])
Names == TLCEval(LET q == ConnTo(Len(cells)) IN Gather(q, Len(q)))
Number(names, x) == CHOOSE i \in DOMAIN names : names[i] = x
Numbers(names) == TLCEval([m \in DOMAIN cells |-> [a \in 1..NN |-> Number(names, Conn(cells[m])[a])]])
\* facets of the mesh, and those that belong to one cell
Sides == {ToSet(Facets(cells[m])[i]) : m \in DOMAIN cells, i \in Nodes}
Outer == {s \in Sides : Cardinality({m \in DOMAIN cells : s \subseteq ToSet(cells[m])}) = 1}
Fixed(whole) == IF whole THEN Outer ELSE {ToSet(fixed[i]) : i \in DOMAIN fixed}
Constrained(names, whole) == {i \in DOMAIN names : \E s \in Fixed(whole) : names[i] \subseteq s}
-----------------------------------------------------------------------------
FInit == Init /\ fixed = <<>>
FNode(x) == Node(x) /\ UNCHANGED fixed
FInsert(c) == /\ Insert(c) /\ Volume(c) # 0 /\ UNCHANGED fixed
              /\ \A m \in DOMAIN cells : Oriented(cells[m]) \cap Oriented(c) = {}
Fix(f) == /\ ToSet(f) \in Sides /\ Len(f) = N
          /\ \A i \in DOMAIN fixed : ToSet(fixed[i]) # ToSet(f)
          /\ fixed' = Append(fixed, f) /\ UNCHANGED vars
-----------------------------------------------------------------------------
\* shape functions sum to one, and are one at their node and null at the others
Partition == /\ \A e \in ExpsOf(K) : SumTo([a \in 1..NN |-> Shape[a][e]], NN) = Elevate(Const(1), K)[e]
             /\ \A a, b \in 1..NN : Eval(Shape[a], [i \in Nodes |-> (4 \div Len(Local[b])) * Cardinality({j \in DOMAIN Local[b] : Local[b][j] = i})])
                                  = (IF a = b THEN 4^K ELSE 0)
\* matrices are symmetric, stiffness is blind to constants, mass adds up to the volume
Elementary == \A m \in DOMAIN cells : LET c == cells[m] IN
  /\ \A a, b \in 1..NN : Stiff(c, a, b) = Stiff(c, b, a) /\ Mass(c, a, b) = Mass(c, b, a)
  /\ \A a \in 1..NN : SumTo([b \in 1..NN |-> Stiff(c, a, b)], NN) = 0
  /\ SumTo([a \in 1..NN |-> SumTo([b \in 1..NN |-> Mass(c, a, b)], NN)], NN) * Fact(N) = Volume(c) * MassDen
\* the gradients of the barycentric coordinates sum to zero, and add up to the position
Sloped == \A m \in DOMAIN cells : LET s == Slopes(cells[m]) IN \A k, d \in Dim :
  /\ SumTo([i \in Nodes |-> s[i][k]], N + 1) = 0
  /\ SumTo([i \in Nodes |-> s[i][k] * pos[cells[m][i]][d]], N + 1) = IF k = d THEN Volume(cells[m]) ELSE 0
=============================================================================
