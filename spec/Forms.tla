------------------------------- MODULE Forms -------------------------------
(* The algebra of forms: what is multilinear in P vectors of dimension D. A form is known by its
   values on the basis vectors; the operations are defined on these. (P13) *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT D
VARIABLE form        \* the forms made so far: [p, c], c: P-tuples of indices -> Int
vars == <<form>>
Dim == 1..D
Index == TLCEval([p \in 1..3 |-> [1..p -> Dim]])
Abs(x) == IF x < 0 THEN -x ELSE x
\* sums over small finite sets
RECURSIVE SumSeq(_, _)
SumSeq(q, n) == IF n = 0 THEN 0 ELSE q[n] + SumSeq(q, n - 1)
RECURSIVE SumFun(_, _)
SumFun(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumFun(S \ {x}, f)
Form(p, c) == [p |-> p, c |-> TLCEval(c)]
F(i) == form[i]
IsForm(i, p) == i \in DOMAIN form /\ form[i].p = p
Norm(f) == LET s == {Abs(f.c[x]) : x \in Index[f.p]} IN CHOOSE m \in s : \A y \in s : y <= m
TypeOK == \A i \in DOMAIN form : form[i].p \in 1..3 /\ DOMAIN form[i].c = Index[form[i].p]
-----------------------------------------------------------------------------
\* from vectors, through a metric
OneForm(v, m) == Form(1, [x \in Index[1] |-> SumSeq([j \in Dim |-> m[x[1]][j] * v[j]], D)])
Diagonal(g) == [i \in Dim |-> [j \in Dim |-> IF i = j THEN g[i] ELSE 0]]
Euclid == Diagonal([i \in Dim |-> 1])
\* linear combinations
Plus(f, g) == Form(f.p, [x \in Index[f.p] |-> f.c[x] + g.c[x]])
Times(a, f) == Form(f.p, [x \in Index[f.p] |-> a * f.c[x]])
\* tensor products
Tensor(f, g) == Form(f.p + g.p, [x \in Index[f.p + g.p] |-> f.c[SubSeq(x, 1, f.p)] * g.c[SubSeq(x, f.p + 1, f.p + g.p)]])
\* the wedge product is the alternation of the tensor product
Perms(n) == {q \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => q[i] # q[j]}
PermsOf == TLCEval([n \in 1..3 |-> Perms(n)])
Sign(q) == IF Cardinality({p \in (DOMAIN q) \X (DOMAIN q) : p[1] < p[2] /\ q[p[1]] > q[p[2]]}) % 2 = 0 THEN 1 ELSE -1
SignOf == TLCEval([n \in 1..3 |-> [q \in Perms(n) |-> Sign(q)]])
\* those permutations that keep the arguments of f, and of g, in their order
Shuffles(p, n) == {q \in PermsOf[n] : \A i, j \in 1..n : i < j /\ ((i <= p /\ j <= p) \/ i > p) => q[i] < q[j]}
ShufflesOf == TLCEval([p \in 1..3 |-> [n \in 1..3 |-> Shuffles(p, n)]])
Wedge(f, g) ==
  LET n == f.p + g.p
      t == Tensor(f, g)
      s == ShufflesOf[f.p][n]
  IN Form(n, [x \in Index[n] |-> SumFun(s, [q \in s |-> SignOf[n][q] * t.c[[i \in 1..n |-> x[q[i]]]]])])
Wedge3(f, g, h) == Wedge(Wedge(f, g), h)
\* values
RECURSIVE Product(_, _, _)
Product(vs, x, k) == IF k = 0 THEN 1 ELSE vs[k][x[k]] * Product(vs, x, k - 1)
Value(f, vs) == SumFun(Index[f.p], [x \in Index[f.p] |-> f.c[x] * Product(vs, x, f.p)])
\* contraction: some of the arguments are given (at k, the vector vs[k]), the others are left open
Contract(f, open, vs) ==
  LET free == SelectSeq([k \in 1..f.p |-> k], LAMBDA k : k \in open)
      n == Len(free)
      given == {x \in Index[f.p] : TRUE}
      Fits(x, y) == \A k \in 1..n : x[free[k]] = y[k]
      W(x) == LET G[k \in 0..f.p] == IF k = 0 THEN 1 ELSE G[k - 1] * (IF k \in open THEN 1 ELSE vs[k][x[k]]) IN G[f.p]
  IN Form(n, [y \in Index[n] |-> LET s == {x \in Index[f.p] : Fits(x, y)}
                                 IN SumFun(s, [x \in s |-> f.c[x] * W(x)])])
-----------------------------------------------------------------------------
\* what a product is asked for: as it is (all open), or with some arguments given
Asked(f, open, vs) == IF open = 1..f.p THEN f ELSE Contract(f, open, vs)
Make(f) == form' = Append(form, f)
FromDiagonal(v, g) == Make(OneForm(v, Diagonal(g)))
FromSymmetric(v, m) == (\A i, j \in Dim : m[i][j] = m[j][i]) /\ Make(OneForm(v, m))
Add(i, j) == i \in DOMAIN form /\ j \in DOMAIN form /\ F(i).p = F(j).p /\ Make(Plus(F(i), F(j)))
Subtract(i, j) == i \in DOMAIN form /\ j \in DOMAIN form /\ F(i).p = F(j).p /\ Make(Plus(F(i), Times(-1, F(j))))
Negate(i) == i \in DOMAIN form /\ Make(Times(-1, F(i)))
Scale(a, i) == i \in DOMAIN form /\ Make(Times(a, F(i)))
Tensor2(i, j, open, vs) == IsForm(i, 1) /\ IsForm(j, 1) /\ Make(Asked(Tensor(F(i), F(j)), open, vs))
Tensor3(i, j, k, open, vs) == IsForm(i, 1) /\ IsForm(j, 1) /\ IsForm(k, 1)
                              /\ Make(Asked(Tensor(Tensor(F(i), F(j)), F(k)), open, vs))
Wedge2(i, j, open, vs) == IsForm(i, 1) /\ IsForm(j, 1) /\ Make(Asked(Wedge(F(i), F(j)), open, vs))
WedgeThree(i, j, k, open, vs) == IsForm(i, 1) /\ IsForm(j, 1) /\ IsForm(k, 1)
                              /\ Make(Asked(Wedge3(F(i), F(j), F(k)), open, vs))
\* the wedge product is of forms that alternate
Alternates(f) == \A x \in Index[f.p] : \A q \in PermsOf[f.p] :
  f.c[[k \in 1..f.p |-> x[q[k]]]] = SignOf[f.p][q] * f.c[x]
WedgeOneTwo(i, j) == IsForm(i, 1) /\ IsForm(j, 2) /\ Alternates(F(j)) /\ Make(Wedge(F(i), F(j)))
\* a combination of products, asked for as one form
Mixed2(a, i, j, open, vs) == IsForm(i, 1) /\ IsForm(j, 1)
  /\ Make(Asked(Plus(Times(a, Wedge(F(i), F(j))), Times(-1, Tensor(F(j), F(i)))), open, vs))
Mixed3(a, i, j, k, open, vs) == IsForm(i, 1) /\ IsForm(j, 1) /\ IsForm(k, 1)
  /\ Make(Asked(Plus(Times(a, Tensor(Tensor(F(k), F(j)), F(i))), Times(-1, Wedge3(F(i), F(j), F(k)))), open, vs))
Init == form = <<>>
-----------------------------------------------------------------------------
\* theorems of the algebra, checked on the forms of every behaviour
Last(n, p, b) == LET s == {i \in DOMAIN form : form[i].p = p /\ Norm(form[i]) <= b} IN
                 {i \in s : Cardinality({j \in s : j > i}) < n}
Ones == Last(3, 1, 40)
Twos == Last(2, 2, 1000)
WedgeAlternates == \A i, j \in Ones : Alternates(Wedge(F(i), F(j)))
WedgeAnticommutes == \A i, j \in Ones : Wedge(F(i), F(j)) = Times(-1, Wedge(F(j), F(i)))
WedgeAssociates == \A i, j, k \in Ones : /\ Wedge3(F(i), F(j), F(k)) = Wedge(F(i), Wedge(F(j), F(k)))
                                         /\ Alternates(Wedge3(F(i), F(j), F(k)))
Even == \A i \in Ones, j \in Twos : Wedge(F(i), F(j)) = Wedge(F(j), F(i))
=============================================================================
