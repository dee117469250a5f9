------------------------------- MODULE Space -------------------------------
(* Euclidean space of dimension D, and its points as coordinate systems know them. A coordinate
   system - cartesian (kind 0), or polar (D = 2) or spherical (D = 3) (kind 1) - places points;
   whatever the coordinates they are told in, positions are positions, vectors are vectors, and
   the metric is that of Euclid. Positions are in quarters. (P21, P22) *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT D
VARIABLES sys,        \* the coordinate systems: [kind, at], at: the points placed -> positions
          npoints     \* the points made
vars == <<sys, npoints>>
Dim == 1..D
Kinds == IF D = 1 THEN {0} ELSE {0, 1}
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Dot(u, v) == SumTo([i \in Dim |-> u[i] * v[i]], D)
Add(u, v) == [i \in Dim |-> u[i] + v[i]]
Sub(u, v) == [i \in Dim |-> u[i] - v[i]]
Mul(a, u) == [i \in Dim |-> a * u[i]]
Zero == [i \in Dim |-> 0]
S(s) == sys[s]
Placed(s) == DOMAIN sys[s].at
At(s, p) == sys[s].at[p]
Is(s, p) == s \in DOMAIN sys /\ p \in Placed(s)
TypeOK == \A s \in DOMAIN sys : sys[s].kind \in Kinds /\ Placed(s) \subseteq 1..npoints
Init == sys = <<>> /\ npoints = 0
-----------------------------------------------------------------------------
Put(s, p, x) == sys' = [sys EXCEPT ![s].at = [q \in DOMAIN @ \cup {p} |-> IF q = p THEN x ELSE @[q]]]
New(k) == k \in Kinds /\ sys' = Append(sys, [kind |-> k, at |-> <<>>]) /\ UNCHANGED npoints
\* a new point, placed
Place(s, x) == s \in DOMAIN sys /\ npoints' = npoints + 1 /\ Put(s, npoints + 1, x)
\* a point another system has placed, perhaps elsewhere
Also(s, p, x) == s \in DOMAIN sys /\ p \in 1..npoints /\ p \notin Placed(s) /\ Put(s, p, x) /\ UNCHANGED npoints
\* a system that has the points of s where s has them
Change(s, k) == s \in DOMAIN sys /\ k \in Kinds /\ k # sys[s].kind
                /\ sys' = Append(sys, [kind |-> k, at |-> sys[s].at]) /\ UNCHANGED npoints
\* a new point, at p displaced by the vector v
Shift(s, p, v) == Is(s, p) /\ npoints' = npoints + 1 /\ Put(s, npoints + 1, Add(At(s, p), Mul(4, v)))
\* a new point, halfway
Middle(s, p, q) == /\ Is(s, p) /\ Is(s, q)
                   /\ \A i \in Dim : (At(s, p)[i] + At(s, q)[i]) % 2 = 0
                   /\ npoints' = npoints + 1
                   /\ Put(s, npoints + 1, [i \in Dim |-> (At(s, p)[i] + At(s, q)[i]) \div 2])
-----------------------------------------------------------------------------
\* the vector from p to q
Vector(s, p, q) == Sub(At(s, q), At(s, p))
\* the square of the distance, in sixteenths
Distance2(s, p, q) == Dot(Vector(s, p, q), Vector(s, p, q))
\* of the cell with nodes c, with weights b (in quarters) on all but the last
RECURSIVE SumAt(_, _, _, _)
SumAt(s, c, b, n) == IF n = 0 THEN Zero ELSE Add(Mul(b[n], At(s, c[n])), SumAt(s, c, b, n - 1))
Sum(s, c) == SumAt(s, c, [i \in 1..Len(c) |-> 1], Len(c))
Weights(b) == Append(b, 4 - SumTo(b, Len(b)))
Weighted(s, c, b) == SumAt(s, c, Weights(b), Len(c))
-----------------------------------------------------------------------------
(* Coordinate bases. The i-th vector of the basis at a point is the derivative of the position
   with respect to the i-th coordinate; here multiplied by a length that makes it rational:
     polar        e_r   : r         e_theta : 1
     spherical    e_r   : r         e_theta : rho       e_phi : 1
   with r the distance from the origin and rho that from the axis. Positions in quarters. *)
Rho2(x) == x[1] * x[1] + x[2] * x[2]
R2(x) == Dot(x, x)
Regular(k, x) == IF k = 0 THEN TRUE ELSE Rho2(x) # 0
Basis(k, x) ==
  CASE k = 0 -> [i \in Dim |-> [j \in Dim |-> IF i = j THEN 1 ELSE 0]]
    [] k = 1 /\ D = 2 -> <<x, <<-x[2], x[1]>>>>
    [] k = 1 /\ D = 3 -> <<x, <<x[1] * x[3], x[2] * x[3], -Rho2(x)>>, <<-x[2], x[1], 0>>>>
\* what to divide by to have it from quarters
Quarters(k) == CASE k = 0 -> [i \in Dim |-> 1] [] k = 1 /\ D = 2 -> <<4, 4>> [] k = 1 /\ D = 3 -> <<4, 16, 4>>
\* the squares of the lengths multiplied by, and of the vectors of the basis (both in sixteenths, for kind 1)
Length2(k, x) == CASE k = 0 -> [i \in Dim |-> 1] [] k = 1 /\ D = 2 -> <<R2(x), 1>> [] k = 1 /\ D = 3 -> <<R2(x), Rho2(x), 1>>
H2(k, x) == CASE k = 0 -> [i \in Dim |-> 1] [] k = 1 /\ D = 2 -> <<1, R2(x)>> [] k = 1 /\ D = 3 -> <<1, R2(x), Rho2(x)>>
HQuarters(k) == CASE k = 0 -> [i \in Dim |-> 1] [] k = 1 /\ D = 2 -> <<1, 16>> [] k = 1 /\ D = 3 -> <<1, 16, 16>>
Det(m) == CASE D = 1 -> m[1][1]
            [] D = 2 -> m[1][1] * m[2][2] - m[1][2] * m[2][1]
            [] D = 3 -> m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2])
                      - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
                      + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
Delta(i, j) == IF i = j THEN 1 ELSE 0
\* the basis is orthogonal, as long as the metric says, and right-handed
BasisIsMetric == \A s \in DOMAIN sys : \A p \in Placed(s) :
  LET k == S(s).kind
      x == At(s, p)
      b == Basis(k, x)
  IN \A i, j \in Dim : Dot(b[i], b[j]) = IF i = j THEN H2(k, x)[i] * Length2(k, x)[i] ELSE 0
RECURSIVE ProductTo(_, _)
ProductTo(f, n) == IF n = 0 THEN 1 ELSE f[n] * ProductTo(f, n - 1)
RightHanded == \A s \in DOMAIN sys : \A p \in {q \in Placed(s) : \A i \in Dim : Abs(At(s, q)[i]) <= 8} :
  LET k == S(s).kind
      x == At(s, p)
      d == Det(Basis(k, x))
  IN /\ d >= 0 /\ (Regular(k, x) => d > 0)
     /\ d * d = ProductTo([i \in Dim |-> H2(k, x)[i] * Length2(k, x)[i]], D)
\* the middle is as far from either end
Equidistant == \A s \in DOMAIN sys : \A p, q \in Placed(s) :
  LET m == Add(At(s, p), At(s, q)) IN
  Dot(Sub(m, Mul(2, At(s, p))), Sub(m, Mul(2, At(s, p)))) = Dot(Sub(m, Mul(2, At(s, q))), Sub(m, Mul(2, At(s, q))))
=============================================================================
