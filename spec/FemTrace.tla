------------------------------ MODULE FemTrace ------------------------------
EXTENDS Fem, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
A == E.a
Has(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Take(at, n) == [i \in 1..n |-> A[at + i - 1]]
Affines(n, at) == [j \in 1..n |-> Take(at + (j - 1) * (D + 1), D + 1)]
\* 2^20 num / den, rounded down; |den| < 2048
Part(num, den) == LET d == Abs(den)
                      n == IF den < 0 THEN -num ELSE num
                  IN (n \div d) * 1048576 + ((n % d) * 1048576) \div d
\* v is told in 1/2^20
Near(v, n, d) == Abs(v - Part(n, d)) <= 3
RECURSIVE Parts(_, _)
Parts(f, k) == IF k = 0 THEN 0 ELSE f[k] + Parts(f, k - 1)
NearSum(v, f, k) == Abs(v - Parts(f, k)) <= 3 * k + 3
-----------------------------------------------------------------------------
\* what the space is made of
SpaceTold == LET names == Names
                 whole == A[1] = 1 IN
  /\ E.connectivity = Numbers(names)
  /\ ToSet(E.constrained) = Constrained(names, whole) /\ Len(E.constrained) = Cardinality(ToSet(E.constrained))
  /\ E.nodes = Len(names)
  /\ ToSet(E.map) = {<<i, Number(names, {i})>> : i \in {i \in DOMAIN pos : {i} \in ToSet(names)}} /\ Len(E.map) = Cardinality(ToSet(E.map))
  /\ UNCHANGED fvars
\* whole, blocks of mass, blocks of stiffness, degree of a source (0: none), blocks of a source of one
\* (what is used again and again is bound by quantifiers, lest it be evaluated every time)
SystemTold ==
  LET names0 == Names
      r == A[4]
      z == A[5]
      L == Affines(r, 6)
  IN
  \E names \in {names0} : \E num \in {Numbers(names)} : \E free \in {DOMAIN names \ Constrained(names, A[1] = 1)} : \E eq \in {E.equations} :
  \E P \in {TLCEval([m \in DOMAIN cells |-> OnCell(cells[m], L)])} :
  \E of \in {TLCEval([x \in DOMAIN names |-> {<<m, a>> \in (DOMAIN cells) \X (1..NN) : num[m][a] = x}])} :
  \E EK \in {TLCEval([m \in DOMAIN cells |-> [a \in 1..NN |-> [b \in 1..NN |->
               A[2] * Part(Mass(cells[m], a, b), MassDen) + A[3] * Part(Stiff(cells[m], a, b), StiffDen(cells[m]))]]])} :
  \E EF \in {TLCEval([m \in DOMAIN cells |-> [a \in 1..NN |->
               z * Part(Source(cells[m], Const(1), a), SourceDen(0)) + IF r = 0 THEN 0 ELSE Part(Source(cells[m], P[m], a), SourceDen(r))]])} :
  \E told \in {E.matrix} :
  LET n == Cardinality(free)
      at(x, y) == UNION {{<<t[1], t[2], v[2]>> : v \in {v \in of[y] : v[1] = t[1]}} : t \in of[x]}
  IN
  /\ E.n = n /\ Len(eq) = Len(names) /\ {eq[x] : x \in free} = 1..n /\ \A x \in (DOMAIN names) \ free : eq[x] = 0
  /\ Len(told) = n /\ Len(E.rhs) = n
  /\ \A x \in free : \A y \in free : \E s \in {at(x, y)} :
       Abs(told[eq[x]][eq[y]] - SumOn(s, [t \in s |-> EK[t[1]][t[2]][t[3]]])) <= (A[2] + A[3]) * Cardinality(s) + 2
  /\ \A x \in free : \E s \in {of[x]} :
       Abs(E.rhs[eq[x]] - SumOn(s, [t \in s |-> EF[t[1]][t[2]]])) <= (1 + z) * Cardinality(s) + 2
  /\ UNCHANGED fvars
\* a field: barycentric coordinates / 4, values at the nodes; its value, place, gradient and jacobian of every element
Field(c, num, u) == [e \in ExpsOf(K) |-> SumTo([a \in 1..NN |-> u[num[a]] * Shape[a][e]], NN)]
FieldTold == \E names \in {Names} : \E num \in {Numbers(names)} :
  LET b == Take(1, N + 1)
      u == Take(N + 2, Len(names))
  IN /\ Len(E.values) = Len(cells)
     /\ \A m \in DOMAIN cells : \E c \in {cells[m]} : \E f \in {TLCEval(Field(c, num[m], u))} : \E s \in {TLCEval(Slopes(c))} :
        /\ Near(E.values[m], Eval(f, b), 4^K)
        /\ \A k \in Dim : Near(E.places[m][k], SumTo([i \in Nodes |-> b[i] * pos[c[i]][k]], N + 1), 4)
        /\ Near(E.jacobians[m], Volume(c), 1)
        /\ \A k \in Dim : Near(E.gradients[m][k], SumTo([i \in Nodes |-> s[i][k] * Eval(Deriv(f, i), b)], N + 1), Volume(c) * 4^(K - 1))
     /\ UNCHANGED fvars
\* the square of the distance of a field to a polynomial, or (r = -1) to another field
Distance == \E names \in {Names} : \E num \in {Numbers(names)} :
            LET h1 == A[1] = 1
                r == A[2]
                u == Take(3, Len(names))
                w == Take(3 + Len(names), Len(names))
                L == Affines(r, 3 + Len(names))
                diff(m) == TLCEval(Plus(Field(cells[m], num[m], u),
                                Times_(-1, IF r < 0 THEN Field(cells[m], num[m], w) ELSE Elevate(OnCell(cells[m], L), K))))
                l2(m, d) == Part(Volume(cells[m]) * Mean(Mult(d, d)), MassDen)
                grad(m, d) == LET s == Slopes(cells[m]) IN
                           Part(SumTo([i \in Nodes |-> SumTo([j \in Nodes |-> Mean(Mult(Deriv(d, i), Deriv(d, j))) * Dot(s[i], s[j])], N + 1)], N + 1), StiffDen(cells[m]))
  IN /\ \E ds \in {TLCEval([m \in DOMAIN cells |-> diff(m)])} :
          NearSum(E.square, [m \in DOMAIN cells |-> l2(m, ds[m]) + IF h1 THEN grad(m, ds[m]) ELSE 0], Len(cells))
     /\ UNCHANGED fvars
-----------------------------------------------------------------------------
TInit == FInit /\ l = 1
TNext ==
  \/ Has("Reset") /\ pos' = <<>> /\ cells' = <<>> /\ fixed' = <<>>
  \/ Has("node") /\ FNode(A)
  \/ Has("cell") /\ FInsert(A)
  \/ Has("fix") /\ Fix(A)
  \/ Has("space") /\ SpaceTold
  \/ Has("system") /\ SystemTold
  \/ Has("field") /\ FieldTold
  \/ Has("norm") /\ Distance
TSpec == TInit /\ [][TNext]_<<fvars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
