------------------------------- MODULE Fields -------------------------------
(* Scalar, vector and tensor fields on cartesian coordinates, of which every  *)
(* component is a polynomial with integer coefficients: their algebra, their  *)
(* partial derivatives, gradients and divergences. (P30)                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES dim,      \* of space
          fn        \* the fields made so far
vars == <<dim, fn>>
-----------------------------------------------------------------------------
\* a polynomial: exponents -> nonzero coefficients
Nil == <<>>
Get(p, e) == IF e \in DOMAIN p THEN p[e] ELSE 0
Clean(f) == [e \in {x \in DOMAIN f : f[x] # 0} |-> f[e]]
PPlus(p, q) == Clean([e \in DOMAIN p \cup DOMAIN q |-> Get(p, e) + Get(q, e)])
PScale(a, p) == Clean([e \in DOMAIN p |-> a * p[e]])
EPlus(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
SumOf(set, G(_)) ==
  LET S[s \in SUBSET set] == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN G(x) + S[s \ {x}] IN S[set]
PTimes(p, q) == TLCEval(Clean([e \in {EPlus(a, b) : a \in DOMAIN p, b \in DOMAIN q} |->
  SumOf({a \in DOMAIN p : [i \in DOMAIN a |-> e[i] - a[i]] \in DOMAIN q},
        LAMBDA a : p[a] * q[[i \in DOMAIN a |-> e[i] - a[i]]])]))
PDiff(p, i) == [e \in {[a EXCEPT ![i] = @ - 1] : a \in {b \in DOMAIN p : b[i] > 0}} |->
                  (e[i] + 1) * p[[e EXCEPT ![i] = @ + 1]]]
Origin == [i \in 1..dim |-> 0]
PConst(a) == IF a = 0 THEN Nil ELSE [e \in {Origin} |-> a]
PCoord(i) == [e \in {[Origin EXCEPT ![i] = 1]} |-> 1]
RECURSIVE PSum(_, _)
PSum(q, n) == IF n = 0 THEN Nil ELSE PPlus(PSum(q, n - 1), q[n])
RECURSIVE Power(_, _), ValueAt(_, _, _)
Power(x, n) == IF n = 0 THEN 1 ELSE x * Power(x, n - 1)
ValueAt(e, x, n) == IF n = 0 THEN 1 ELSE Power(x[n], e[n]) * ValueAt(e, x, n - 1)
PValue(p, x) == SumOf(DOMAIN p, LAMBDA e : p[e] * ValueAt(e, x, Len(x)))
-----------------------------------------------------------------------------
\* a field: the number of rows and columns of its values (0 of what there are none of), whether mito knows its derivatives, and its components, row by row
Field(r, c, diff, p) == [r |-> r, c |-> c, diff |-> diff, p |-> TLCEval(p)]
F(k) == fn[k]
Made(k) == k \in DOMAIN fn
IsS(k) == Made(k) /\ F(k).r = 0
IsV(k) == Made(k) /\ F(k).r > 0 /\ F(k).c = 0
IsM(k) == Made(k) /\ F(k).c > 0
Same(j, k) == Made(j) /\ Made(k) /\ F(j).r = F(k).r /\ F(j).c = F(k).c
Count(r, c) == IF r = 0 THEN 1 ELSE IF c = 0 THEN r ELSE r * c
At(f, i, j) == f.p[(i - 1) * f.c + j]
Make(f) == fn' = Append(fn, f) /\ UNCHANGED dim
Each(r, c, diff, G(_)) == Field(r, c, diff, [n \in 1..Count(r, c) |-> G(n)])
Matrix(r, c, diff, G(_, _)) == Field(r, c, diff, [n \in 1..(r * c) |-> G(((n - 1) \div c) + 1, ((n - 1) % c) + 1)])
Init == dim = 0 /\ fn = <<>>
InSpace(d) == dim = 0 /\ d \in 1..3 /\ dim' = d /\ UNCHANGED fn
Coordinate(i) == i \in 1..dim /\ Make(Field(0, 0, TRUE, <<PCoord(i)>>))
Constant(r, c, a) == Len(a) = Count(r, c) /\ Make(Each(r, c, TRUE, LAMBDA n : PConst(a[n])))
\* a formula, whose derivatives mito does not know
Formula(a, b) == Make(Field(0, 0, FALSE, <<PPlus(PScale(a, PTimes(PCoord(1), PCoord(dim))), PConst(b))>>))
Assembled(r, c, q) == /\ Len(q) = Count(r, c) /\ \A i \in DOMAIN q : IsS(q[i])
                      /\ Make(Each(r, c, \A i \in DOMAIN q : F(q[i]).diff, LAMBDA n : F(q[n]).p[1]))
Add(j, k) == Same(j, k) /\ Make(Each(F(j).r, F(j).c, F(j).diff /\ F(k).diff, LAMBDA n : PPlus(F(j).p[n], F(k).p[n])))
Subtract(j, k) == Same(j, k) /\ Make(Each(F(j).r, F(j).c, F(j).diff /\ F(k).diff, LAMBDA n : PPlus(F(j).p[n], PScale(-1, F(k).p[n]))))
Negate(k) == Made(k) /\ Make(Each(F(k).r, F(k).c, F(k).diff, LAMBDA n : PScale(-1, F(k).p[n])))
Row(f, i) == [j \in 1..f.c |-> At(f, i, j)]
Column(f, j) == IF f.c = 0 THEN f.p ELSE [i \in 1..f.r |-> At(f, i, j)]
Inner(p, q) == PSum([i \in DOMAIN p |-> PTimes(p[i], q[i])], Len(p))
Times(j, k) ==
  LET f == F(j) g == F(k) d == F(j).diff /\ F(k).diff IN
  \/ IsS(j) /\ Made(k) /\ Make(Each(g.r, g.c, d, LAMBDA n : PTimes(f.p[1], g.p[n])))
  \/ Made(j) /\ ~IsS(j) /\ IsS(k) /\ Make(Each(f.r, f.c, d, LAMBDA n : PTimes(f.p[n], g.p[1])))
  \/ IsV(j) /\ IsV(k) /\ f.r = g.r /\ Make(Field(0, 0, d, <<Inner(f.p, g.p)>>))
  \/ IsM(j) /\ IsV(k) /\ f.c = g.r /\ Make(Each(f.r, 0, d, LAMBDA n : Inner(Row(f, n), g.p)))
  \/ IsM(j) /\ IsM(k) /\ f.c = g.r /\ Make(Matrix(f.r, g.c, d, LAMBDA m, n : Inner(Row(f, m), Column(g, n))))
Square(k) == IsS(k) /\ Make(Field(0, 0, F(k).diff, <<PTimes(F(k).p[1], F(k).p[1])>>))
Cube(k) == IsS(k) /\ Make(Field(0, 0, F(k).diff, <<PTimes(F(k).p[1], PTimes(F(k).p[1], F(k).p[1]))>>))
Transposed(k) == IsM(k) /\ Make(Matrix(F(k).c, F(k).r, F(k).diff, LAMBDA m, n : At(F(k), n, m)))
Dyadic(j, k) == IsV(j) /\ IsV(k) /\ F(j).r = F(k).r
                /\ Make(Matrix(F(j).r, F(k).r, FALSE, LAMBDA m, n : PTimes(F(j).p[m], F(k).p[n])))
Subscript(k, n) == Made(k) /\ ~IsS(k) /\ n \in DOMAIN F(k).p /\ Make(Field(0, 0, F(k).diff, <<F(k).p[n]>>))
\* derivatives
Partial(k, i) == Made(k) /\ F(k).diff /\ i \in 1..dim /\ Make(Each(F(k).r, F(k).c, TRUE, LAMBDA n : PDiff(F(k).p[n], i)))
GradientOf(f) == IF f.r = 0 THEN Each(dim, 0, TRUE, LAMBDA i : PDiff(f.p[1], i))
                 ELSE Matrix(f.r, dim, TRUE, LAMBDA m, i : PDiff(f.p[m], i))
Gradient(k) == Made(k) /\ F(k).diff /\ F(k).c = 0 /\ Make(GradientOf(F(k)))
DivergenceOf(f) == IF f.c = 0 THEN Field(0, 0, TRUE, <<PSum([i \in 1..dim |-> PDiff(f.p[i], i)], dim)>>)
                   ELSE Each(f.r, 0, TRUE, LAMBDA m : PSum([i \in 1..dim |-> PDiff(At(f, m, i), i)], dim))
\* of a vector, or of a tensor that takes vectors of space to such
Divergence(k) == /\ Made(k) /\ F(k).diff
                 /\ IF IsV(k) THEN F(k).r = dim ELSE IsM(k) /\ F(k).r = dim /\ F(k).c = dim
                 /\ Make(DivergenceOf(F(k)))
-----------------------------------------------------------------------------
\* where the fields are looked at
Points == <<{<<-2>>, <<-1>>, <<0>>, <<1>>, <<2>>, <<3>>},
            {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 2>>, <<-1, 1>>, <<2, -3>>, <<-2, -1>>, <<3, 1>>},
            {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 2, 3>>, <<-1, 1, 2>>, <<2, -1, 1>>, <<-2, 3, -1>>, <<1, -3, -2>>}>>
TypeOK == /\ dim \in 0..3
          /\ \A k \in DOMAIN fn : Len(F(k).p) = Count(F(k).r, F(k).c)
                                  /\ \A n \in DOMAIN F(k).p : \A e \in DOMAIN F(k).p[n] : Len(e) = dim /\ F(k).p[n][e] # 0
\* identities of the calculus of fields, of the last field with each other
Last == Len(fn)
Sum2(p, q) == [n \in DOMAIN p |-> PPlus(p[n], q[n])]
Scaled(a, p) == [n \in DOMAIN p |-> PTimes(a, p[n])]
MixedPartials == fn # <<>> => \A n \in DOMAIN F(Last).p : \A i, j \in 1..dim :
                   PDiff(PDiff(F(Last).p[n], i), j) = PDiff(PDiff(F(Last).p[n], j), i)
\* grad (a b) = a grad b + b grad a,  div (a v) = a div v + v . grad a,  div transpose(grad v) = grad div v
ProductRules == fn # <<>> /\ IsS(Last) => \A k \in DOMAIN fn :
  LET a == F(Last).p[1]
      g == GradientOf(F(Last)).p
      b == F(k)
      ab == Each(b.r, b.c, TRUE, LAMBDA n : PTimes(a, b.p[n]))
  IN /\ b.r = 0 => GradientOf(ab).p = Sum2(Scaled(a, GradientOf(b).p), Scaled(b.p[1], g))
     /\ b.r = dim /\ b.c = 0 => DivergenceOf(ab).p[1] = PPlus(PTimes(a, DivergenceOf(b).p[1]), Inner(b.p, g))
DivergenceOfTransposedGradient == fn # <<>> /\ IsV(Last) /\ F(Last).r = dim =>
  LET f == F(Last)
      G == GradientOf(f)
      T == Matrix(dim, dim, TRUE, LAMBDA m, n : At(G, n, m))
  IN DivergenceOf(T).p = GradientOf(DivergenceOf(f)).p
=============================================================================
