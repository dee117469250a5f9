----------------------------- MODULE Calculus -----------------------------
(* Functions of a scalar or of a vector of two components, built from a library by algebra, composition,
   indexing and differentiation. A function is known by its Taylor polynomials about a fixed set of
   points, in exact rational arithmetic: an account of values and derivatives that has no rule of
   derivation in it but that of the powers. (P25) *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE fn
vars == <<fn>>
-----------------------------------------------------------------------------
\* rationals; what cannot be told (irrational, or too large for the arithmetic here) is Bad
Bad == <<0, 0>>
Largest == 32000
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Rat(n, d) == IF d = 0 THEN Bad
             ELSE LET g == Gcd(Abs(n), Abs(d))
                      s == IF d < 0 THEN -1 ELSE 1
                      m == s * (n \div g)
                      e == s * (d \div g)
                  IN IF Abs(m) > Largest \/ e > Largest THEN Bad ELSE <<m, e>>
Int2(n) == Rat(n, 1)
Zero == <<0, 1>>
One == <<1, 1>>
RPlus(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN Bad
               ELSE IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
               ELSE IF a[2] = 1 /\ b[2] = 1 THEN Rat(a[1] + b[1], 1)
               ELSE Rat(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
\* (zero times what cannot be told is not told either)
RTimes(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN Bad
                ELSE IF a[1] = 0 \/ b[1] = 0 THEN Zero
                ELSE IF a = One THEN b ELSE IF b = One THEN a ELSE Rat(a[1] * b[1], a[2] * b[2])
RInverse(a) == Rat(a[2], a[1])
RMinus(a) == <<-a[1], a[2]>>
-----------------------------------------------------------------------------
\* Taylor polynomials: coefficients by exponents, to the third order
Expo == [s |-> <<<<0, 0>>, <<1, 0>>, <<2, 0>>, <<3, 0>>>>,
         v |-> <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, 0>>, <<1, 1>>, <<0, 2>>, <<3, 0>>, <<2, 1>>, <<1, 2>>, <<0, 3>>>>]
K(dom) == Len(Expo[dom])
Where(dom, e) == CHOOSE k \in 1..K(dom) : Expo[dom][k] = e
\* the pairs of coefficients that make up each coefficient of a product
PairsOf(dom, k) == SelectSeq([n \in 1..(K(dom) * K(dom)) |-> <<((n - 1) \div K(dom)) + 1, ((n - 1) % K(dom)) + 1>>],
  LAMBDA p : LET a == Expo[dom][p[1]] b == Expo[dom][p[2]] IN <<a[1] + b[1], a[2] + b[2]>> = Expo[dom][k])
Pairs == TLCEval([dom \in {"s", "v"} |-> [k \in 1..K(dom) |-> PairsOf(dom, k)]])
PConst(dom, r) == [k \in 1..K(dom) |-> IF k = 1 THEN r ELSE Zero]
PPlus(p, q) == [k \in 1..Len(p) |-> RPlus(p[k], q[k])]
PScale(r, p) == [k \in 1..Len(p) |-> RTimes(r, p[k])]
RECURSIVE SumPairs(_, _, _, _)
SumPairs(ps, p, q, n) == IF n = 0 THEN Zero ELSE RPlus(SumPairs(ps, p, q, n - 1), RTimes(p[ps[n][1]], q[ps[n][2]]))
PTimes(dom, p, q) == TLCEval([k \in 1..K(dom) |-> SumPairs(Pairs[dom][k], p, q, Len(Pairs[dom][k]))])
\* without its value at the point
PHead(p) == [k \in 1..Len(p) |-> IF k = 1 THEN Zero ELSE p[k]]
\* 1 / p = (1/c) (1 - h + h^2 - h^3), with p = c (1 + h)
PInverse(dom, p) ==
  LET c == RInverse(p[1])
      h == TLCEval(PScale(RMinus(c), PHead(p)))
      h2 == PTimes(dom, h, h)
      h3 == PTimes(dom, h, h2)
  IN TLCEval(PScale(c, PPlus(PPlus(PConst(dom, One), h), PPlus(h2, h3))))
\* derivative with respect to the i-th variable; the last order is lost
Lower(e, i) == IF i = 1 THEN <<e[1] + 1, e[2]>> ELSE <<e[1], e[2] + 1>>
PDiff(dom, p, i) == [k \in 1..K(dom) |->
  LET e == Lower(Expo[dom][k], i) IN
  IF e[1] + e[2] > 3 THEN Bad ELSE IF dom = "s" /\ i = 2 THEN Bad
  ELSE RTimes(Int2(e[i]), p[Where(dom, e)])]
Order(e) == e[1] + e[2]
\* (the powers of order n vanish below it, where what they are the powers of is told)
PScaleFrom(dom, r, p, n, told) == [k \in 1..K(dom) |-> IF Order(Expo[dom][k]) < n THEN (IF Order(Expo[dom][k]) <= told THEN Zero ELSE Bad)
                                                       ELSE RTimes(r, p[k])]
\* substitution: f a polynomial about the point where the h vanish
PSubst(fdom, dom, f, hs) ==
  LET Powers(h) == LET h2 == PTimes(dom, h, h) IN <<PConst(dom, One), h, h2, PTimes(dom, h2, h)>>
      pw == TLCEval([i \in 1..Len(hs) |-> Powers(hs[i])])
      Term(e) == IF fdom = "s" THEN pw[1][e[1] + 1]
                 ELSE IF e[1] = 0 THEN pw[2][e[2] + 1] ELSE IF e[2] = 0 THEN pw[1][e[1] + 1]
                 ELSE PTimes(dom, pw[1][e[1] + 1], pw[2][e[2] + 1])
      told == TLCEval(CHOOSE n \in 0..3 : /\ \A k \in 1..K(dom) : Order(Expo[dom][k]) <= n => \A i \in 1..Len(hs) : hs[i][k] # Bad
                                          /\ n < 3 => \E k \in 1..K(dom) : Order(Expo[dom][k]) = n + 1 /\ \E i \in 1..Len(hs) : hs[i][k] = Bad)
      S[k \in 0..K(fdom)] == IF k = 0 THEN PConst(dom, Zero)
                             ELSE IF f[k] = Zero THEN (IF k = 1 \/ told = 3 THEN S[k - 1]
                                                       ELSE PPlus(S[k - 1], [m \in 1..K(dom) |-> IF Order(Expo[dom][m]) <= told THEN Zero ELSE Bad]))
                             ELSE PPlus(S[k - 1], PScaleFrom(dom, f[k], Term(Expo[fdom][k]), Order(Expo[fdom][k]), told))
  IN TLCEval(S[K(fdom)])
-----------------------------------------------------------------------------
\* where the functions are looked at
Points == [s |-> <<<<<<-1, 1>>>>, <<<<0, 1>>>>, <<<<1, 1>>>>, <<<<2, 1>>>>, <<<<4, 1>>>>, <<<<8, 1>>>>, <<<<1, 2>>>>>>,
           v |-> <<<<<<0, 1>>, <<0, 1>>>>, <<<<1, 1>>, <<0, 1>>>>, <<<<0, 1>>, <<1, 1>>>>,
                   <<<<1, 1>>, <<2, 1>>>>, <<<<2, 1>>, <<-1, 1>>>>, <<<<1, 2>>, <<-1, 1>>>>>>]
NPoints(dom) == Len(Points[dom])
\* kinds of values: scalar, vector, 2x2 matrix, row, column
Size == [s |-> 1, v |-> 2, m |-> 4, r |-> 2, c |-> 2]
\* a function: domain, kind of value, whether mito knows its derivative, and for every point and component a polynomial
Fn(dom, cod, diff, t) == [dom |-> dom, cod |-> cod, diff |-> diff, t |-> TLCEval(t)]
Table(dom, cod, G(_, _)) == [p \in 1..NPoints(dom) |-> [i \in 1..Size[cod] |-> G(p, i)]]
TypeOK == \A k \in DOMAIN fn : /\ fn[k].dom \in {"s", "v"} /\ fn[k].cod \in DOMAIN Size
                               /\ Len(fn[k].t) = NPoints(fn[k].dom)
                               /\ \A p \in DOMAIN fn[k].t : Len(fn[k].t[p]) = Size[fn[k].cod]
Make(f) == fn' = Append(fn, f)
Is2(k, dom, cod) == k \in DOMAIN fn /\ fn[k].dom = dom /\ fn[k].cod = cod
-----------------------------------------------------------------------------
\* the library: Taylor coefficients where they are rational
Poly(a, b, c, d) == <<a, b, c, d>>
RPow(x, n) == LET F[k \in 0..n] == IF k = 0 THEN One ELSE RTimes(F[k - 1], x) IN F[n]
Binomial == <<<<1, 1, 0, 0>>, <<1, 2, 1, 0>>, <<1, 3, 3, 1>>, <<1, 4, 6, 4>>>>
Series(name, x) ==
  LET At(y) == x = y
      Inv == RInverse(x)
      Nil == Poly(Bad, Bad, Bad, Bad)
  IN CASE name = "sin" -> IF At(Zero) THEN Poly(Zero, One, Zero, <<-1, 6>>) ELSE Nil
       [] name = "cos" -> IF At(Zero) THEN Poly(One, Zero, <<-1, 2>>, Zero) ELSE Nil
       [] name = "tan" -> IF At(Zero) THEN Poly(Zero, One, Zero, <<1, 3>>) ELSE Nil
       [] name = "asin" -> IF At(Zero) THEN Poly(Zero, One, Zero, <<1, 6>>) ELSE Nil
       [] name = "acos" -> IF At(Zero) THEN Poly(Bad, <<-1, 1>>, Zero, <<-1, 6>>)
                           ELSE IF At(One) THEN Poly(Zero, Bad, Bad, Bad) ELSE Nil
       [] name = "atan" -> IF At(Zero) THEN Poly(Zero, One, Zero, <<-1, 3>>)
                           ELSE LET q == RInverse(RPlus(One, RTimes(x, x))) IN
                             Poly(Bad, q, RMinus(RTimes(x, RTimes(q, q))),
                                  RTimes(<<1, 3>>, RTimes(RPlus(RTimes(Int2(3), RTimes(x, x)), <<-1, 1>>), RPow(q, 3))))
       [] name = "exp" -> IF At(Zero) THEN Poly(One, One, <<1, 2>>, <<1, 6>>) ELSE Nil
       [] name = "log" -> IF x[1] > 0 THEN Poly(IF At(One) THEN Zero ELSE Bad, Inv, RTimes(<<-1, 2>>, RPow(Inv, 2)),
                                                RTimes(<<1, 3>>, RPow(Inv, 3))) ELSE Nil
       [] name = "sqrt" -> IF At(One) THEN Poly(One, <<1, 2>>, <<-1, 8>>, <<1, 16>>)
                           ELSE IF At(<<4, 1>>) THEN Poly(<<2, 1>>, <<1, 4>>, <<-1, 64>>, <<1, 512>>)
                           ELSE IF At(Zero) THEN Poly(Zero, Bad, Bad, Bad) ELSE Nil
       [] name = "cbrt" -> IF At(One) THEN Poly(One, <<1, 3>>, <<-1, 9>>, <<5, 81>>)
                           ELSE IF At(<<8, 1>>) THEN Poly(<<2, 1>>, <<1, 12>>, <<-1, 288>>, <<5, 20736>>)
                           ELSE IF At(<<-1, 1>>) THEN Poly(<<-1, 1>>, <<1, 3>>, <<1, 9>>, <<5, 81>>)
                           ELSE IF At(Zero) THEN Poly(Zero, Bad, Bad, Bad) ELSE Nil
       [] OTHER -> Nil
Names == {"sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "sqrt", "cbrt"}
Library(name) == name \in Names /\ Make(Fn("s", "s", TRUE, Table("s", "s", LAMBDA p, i : Series(name, Points["s"][p][1]))))
PowerAt(n, x) == [k \in 1..4 |-> IF k - 1 > n THEN Zero ELSE RTimes(Int2(Binomial[n][k]), RPow(x, n - k + 1))]
Power(n) == n \in 1..4 /\ Make(Fn("s", "s", TRUE, Table("s", "s", LAMBDA p, i : PowerAt(n, Points["s"][p][1]))))
Coordinate(p, i) == [k \in 1..K("v") |-> IF k = 1 THEN Points["v"][p][i] ELSE IF k = i + 1 THEN One ELSE Zero]
Component(n) == n \in 1..2 /\ Make(Fn("v", "s", TRUE, Table("v", "s", LAMBDA p, i : Coordinate(p, n))))
Constant(dom, cod, a) == Make(Fn(dom, cod, TRUE, Table(dom, cod, LAMBDA p, i : PConst(dom, Int2(a[i])))))
\* functions given by a formula, whose derivatives mito does not know
Formula(dom, cod, n) == /\ n \in 1..2
  /\ Make(Fn(dom, cod, FALSE, Table(dom, cod, LAMBDA p, i :
         IF dom = "s" THEN LET x == PowerAt(1, Points["s"][p][1]) IN
             PPlus(PTimes(dom, x, x), PScale(Int2(n), PConst(dom, Int2(i))))
         ELSE PPlus(PTimes(dom, Coordinate(p, 1), Coordinate(p, 2)), PScale(Int2(n * i), Coordinate(p, 1))))))
-----------------------------------------------------------------------------
\* algebra
F(k) == fn[k]
Both(j, k) == j \in DOMAIN fn /\ k \in DOMAIN fn /\ F(j).dom = F(k).dom
Ring(j, k, cod, G(_, _)) == Make(Fn(F(j).dom, cod, F(j).diff /\ F(k).diff, Table(F(j).dom, cod, G)))
Add(j, k) == Both(j, k) /\ F(j).cod = F(k).cod /\ Ring(j, k, F(j).cod, LAMBDA p, i : PPlus(F(j).t[p][i], F(k).t[p][i]))
Subtract(j, k) == Both(j, k) /\ F(j).cod = F(k).cod
               /\ Ring(j, k, F(j).cod, LAMBDA p, i : PPlus(F(j).t[p][i], PScale(<<-1, 1>>, F(k).t[p][i])))
Add3(j, k, l) == Both(j, k) /\ Both(j, l) /\ F(j).cod = F(k).cod /\ F(j).cod = F(l).cod
               /\ Make(Fn(F(j).dom, F(j).cod, F(j).diff /\ F(k).diff /\ F(l).diff, Table(F(j).dom, F(j).cod,
                    LAMBDA p, i : PPlus(F(j).t[p][i], PPlus(F(k).t[p][i], F(l).t[p][i])))))
Combine(a, b, j, k) == Both(j, k) /\ F(j).cod = F(k).cod
               /\ Ring(j, k, F(j).cod, LAMBDA p, i : PPlus(PScale(Int2(a), F(j).t[p][i]), PScale(Int2(b), F(k).t[p][i])))
\* what kind of value a product has
ProductKind(a, b) == CASE a = "s" -> b [] b = "s" -> a
                       [] a = "v" /\ b = "v" -> "s"
                       [] a = "m" /\ b \in {"v", "m", "c"} -> b
                       [] a = "r" /\ b = "m" -> "r"
                       [] a = "c" /\ b = "r" -> "m"
                       [] OTHER -> "none"
\* the i-th component of a product of values given by their components
ProductAt(dom, a, b, x, y, i) ==
  CASE a = "s" -> PTimes(dom, x[1], y[i])
    [] b = "s" -> PTimes(dom, x[i], y[1])
    [] a = "v" /\ b = "v" -> PPlus(PTimes(dom, x[1], y[1]), PTimes(dom, x[2], y[2]))
    [] a = "m" /\ b \in {"v", "c"} -> PPlus(PTimes(dom, x[2 * i - 1], y[1]), PTimes(dom, x[2 * i], y[2]))
    [] a = "m" /\ b = "m" -> LET r == (i - 1) \div 2 c == (i - 1) % 2 IN
          PPlus(PTimes(dom, x[2 * r + 1], y[c + 1]), PTimes(dom, x[2 * r + 2], y[c + 3]))
    [] a = "r" /\ b = "m" -> PPlus(PTimes(dom, x[1], y[i]), PTimes(dom, x[2], y[i + 2]))
    [] a = "c" /\ b = "r" -> PTimes(dom, x[((i - 1) \div 2) + 1], y[((i - 1) % 2) + 1])
Multiply(j, k) == /\ Both(j, k) /\ ProductKind(F(j).cod, F(k).cod) # "none"
  /\ Ring(j, k, ProductKind(F(j).cod, F(k).cod),
          LAMBDA p, i : ProductAt(F(j).dom, F(j).cod, F(k).cod, F(j).t[p], F(k).t[p], i))
Divide(j, k) == /\ Both(j, k) /\ F(k).cod = "s"
  /\ Ring(j, k, F(j).cod, LAMBDA p, i : PTimes(F(j).dom, F(j).t[p][i], PInverse(F(j).dom, F(k).t[p][1])))
\* with constants: a is the list of the components of a value of kind c
Consts(dom, a) == [i \in 1..Len(a) |-> PConst(dom, Int2(a[i]))]
Unary(k, cod, G(_, _)) == Make(Fn(F(k).dom, cod, F(k).diff, Table(F(k).dom, cod, G)))
AddConst(k, a) == k \in DOMAIN fn /\ Len(a) = Size[F(k).cod]
   /\ Unary(k, F(k).cod, LAMBDA p, i : PPlus(F(k).t[p][i], PConst(F(k).dom, Int2(a[i]))))
ConstMinus(a, k) == k \in DOMAIN fn /\ Len(a) = Size[F(k).cod]
   /\ Unary(k, F(k).cod, LAMBDA p, i : PPlus(PScale(<<-1, 1>>, F(k).t[p][i]), PConst(F(k).dom, Int2(a[i]))))
MinusConst(k, a) == AddConst(k, [i \in DOMAIN a |-> -a[i]])
ConstTimes(c, a, k) == k \in DOMAIN fn /\ ProductKind(c, F(k).cod) # "none"
   /\ Unary(k, ProductKind(c, F(k).cod), LAMBDA p, i : ProductAt(F(k).dom, c, F(k).cod, Consts(F(k).dom, a), F(k).t[p], i))
TimesConst(k, c, a) == k \in DOMAIN fn /\ ProductKind(F(k).cod, c) # "none"
   /\ Unary(k, ProductKind(F(k).cod, c), LAMBDA p, i : ProductAt(F(k).dom, F(k).cod, c, F(k).t[p], Consts(F(k).dom, a), i))
OverConst(k, a) == k \in DOMAIN fn /\ a # 0 /\ Unary(k, F(k).cod, LAMBDA p, i : PScale(Rat(1, a), F(k).t[p][i]))
ConstOver(c, a, k) == k \in DOMAIN fn /\ F(k).cod = "s"
   /\ Unary(k, c, LAMBDA p, i : PScale(Int2(a[i]), PInverse(F(k).dom, F(k).t[p][1])))
Negate(k) == k \in DOMAIN fn /\ Unary(k, F(k).cod, LAMBDA p, i : PScale(<<-1, 1>>, F(k).t[p][i]))
\* matrices and vectors
TransposedKind(a) == CASE a = "m" -> "m" [] a = "r" -> "c" [] a = "c" -> "r"
Transposed(k) == k \in DOMAIN fn /\ F(k).cod \in {"m", "r", "c"}
   /\ Unary(k, TransposedKind(F(k).cod), LAMBDA p, i : F(k).t[p][IF F(k).cod = "m" THEN <<1, 3, 2, 4>>[i] ELSE i])
NoDiff(k, cod, G(_, _)) == Make(Fn(F(k).dom, cod, FALSE, Table(F(k).dom, cod, G)))
Det(k, p) == LET d == F(k).dom t == F(k).t[p] IN
  PPlus(PTimes(d, t[1], t[4]), PScale(<<-1, 1>>, PTimes(d, t[2], t[3])))
Determinant(k) == k \in DOMAIN fn /\ F(k).cod = "m" /\ NoDiff(k, "s", LAMBDA p, i : Det(k, p))
Inverted(k) == k \in DOMAIN fn /\ F(k).cod = "m"
   /\ NoDiff(k, "m", LAMBDA p, i : PTimes(F(k).dom, PInverse(F(k).dom, Det(k, p)),
                                          PScale(IF i \in {2, 3} THEN <<-1, 1>> ELSE One, F(k).t[p][<<4, 2, 3, 1>>[i]])))
Dyadic(j, k) == Both(j, k) /\ F(j).cod = "v" /\ F(k).cod = "v"
   /\ NoDiff(j, "m", LAMBDA p, i : PTimes(F(j).dom, F(j).t[p][((i - 1) \div 2) + 1], F(k).t[p][((i - 1) % 2) + 1]))
Subscript(k, n) == k \in DOMAIN fn /\ F(k).cod # "s" /\ n \in 1..Size[F(k).cod] /\ Unary(k, "s", LAMBDA p, i : F(k).t[p][n])
\* a vector of two scalars
Vector(j, k) == Both(j, k) /\ F(j).cod = "s" /\ F(k).cod = "s"
   /\ Ring(j, k, "v", LAMBDA p, i : IF i = 1 THEN PPlus(F(j).t[p][1], PScale(Zero, F(k).t[p][1]))
                                     ELSE PPlus(F(k).t[p][1], PScale(Zero, F(j).t[p][1])))
\* composition: f after g
Nowhere(dom) == PConst(dom, Bad)
PointAt(dom, x) == LET s == {p \in 1..NPoints(dom) : Points[dom][p] = x} IN IF s = {} THEN 0 ELSE CHOOSE p \in s : TRUE
ComposeAt(f, g, p, i) ==
  LET y == [n \in 1..Size[g.cod] |-> g.t[p][n][1]]
      q == PointAt(f.dom, y)
  IN IF q = 0 THEN [k \in 1..K(g.dom) |-> Bad]
     ELSE PSubst(f.dom, g.dom, f.t[q][i], [n \in 1..Size[g.cod] |-> PHead(g.t[p][n])])
Compose(j, k) == /\ j \in DOMAIN fn /\ k \in DOMAIN fn /\ F(j).dom = F(k).cod
  \* mito differentiates compositions through scalars, and through vectors that are functions of vectors
  /\ Make(Fn(F(k).dom, F(j).cod, F(j).diff /\ F(k).diff /\ (F(k).cod = "s" \/ F(k).dom = "v"),
             Table(F(k).dom, F(j).cod, LAMBDA p, i : ComposeAt(F(j), F(k), p, i))))
\* derivatives
Partial(k, n) == k \in DOMAIN fn /\ F(k).diff /\ n \in (IF F(k).dom = "s" THEN {1} ELSE 1..2)
   /\ Unary(k, F(k).cod, LAMBDA p, i : PDiff(F(k).dom, F(k).t[p][i], n))
GradientKind(dom, cod) == CASE dom = "s" /\ cod = "s" -> "s" [] dom = "v" /\ cod = "s" -> "r"
                            [] dom = "s" /\ cod = "v" -> "c" [] dom = "v" /\ cod = "v" -> "m" [] OTHER -> "none"
Gradient(k) == k \in DOMAIN fn /\ F(k).diff /\ GradientKind(F(k).dom, F(k).cod) # "none"
   /\ LET n == GradientKind(F(k).dom, F(k).cod) IN
      Unary(k, n, LAMBDA p, i :
        CASE n = "s" -> PDiff("s", F(k).t[p][1], 1)
          [] n = "r" -> PDiff("v", F(k).t[p][1], i)
          [] n = "c" -> PDiff("s", F(k).t[p][i], 1)
          [] n = "m" -> PDiff("v", F(k).t[p][((i - 1) \div 2) + 1], ((i - 1) % 2) + 1))
Init == fn = <<>>
-----------------------------------------------------------------------------
\* mixed partial derivatives commute wherever they are told (a check of the arithmetic above)
Clairaut == \A k \in {j \in DOMAIN fn : j = Len(fn)} : F(k).dom = "v" => \A p \in 1..NPoints("v") : \A i \in 1..Size[F(k).cod] :
  LET a == PDiff("v", PDiff("v", F(k).t[p][i], 1), 2) b == PDiff("v", PDiff("v", F(k).t[p][i], 2), 1) IN a = b
=============================================================================
