------------------------------ MODULE FieldsMC ------------------------------
EXTENDS Fields, Json
CONSTANTS Depth, Budget
VARIABLES path,
          cost      \* how large an expression each field is (of no concern to the specification)
mcvars == <<vars, path, cost>>
Log(op, n) == path' = Append(path, op) /\ cost' = Append(cost, n) /\ n <= Budget
R(s) == {RandomElement(s)}
MCInit == Init /\ path = <<>> /\ cost = <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
Order(e) == SumOf(DOMAIN e, LAMBDA i : e[i])
\* fields that are not too large to tell
Small(f) == \A n \in DOMAIN f.p : \A e \in DOMAIN f.p[n] : Abs(f.p[n][e]) <= 3000 /\ Order(e) <= 6
Kept == fn' # fn => Small(fn'[Len(fn')])
Tuple(n, b) == [i \in 1..n |-> RandomElement((-b)..b)]
One1(s) == IF s = {} THEN {} ELSE {RandomElement(s)}
All == DOMAIN fn
Pick == IF fn = <<>> THEN {} ELSE {RandomElement({Len(fn), RandomElement(All), RandomElement(All)})}
Where(P(_)) == One1({k \in All : P(k)})
Mate(k) == One1({j \in All : Same(j, k)})
Scalars == {k \in All : IsS(k)}
RECURSIVE Some(_)
Some(n) == IF n = 0 THEN <<>> ELSE <<RandomElement(Scalars)>> \o Some(n - 1)
Cost(q) == LET S[i \in 0..Len(q)] == IF i = 0 THEN 1 ELSE S[i - 1] + cost[q[i]] + 1 IN S[Len(q)]
Sizes == {1, 2, 3}
Shape == RandomElement({dim, dim, RandomElement(2..3)})
Try(t) ==
  CASE t \in 1..5 -> \E n \in R(1..dim) : Coordinate(n) /\ Log(<<"comp", n>>, 1)
    [] t = 6 -> \E c \in R(1..3) : \E r \in {IF c = 1 THEN 0 ELSE Shape} : \E m \in {IF c = 3 THEN Shape ELSE 0} :
                \E a \in {Tuple(Count(r, m), 3)} : Constant(r, m, a) /\ Log(<<"const", r, m>> \o a, 1)
    [] t = 7 -> \E a \in R(1..3) : \E b \in R((-2)..2) : Formula(a, b) /\ Log(<<"formula", a, b>>, 1)
    [] t \in 8..11 -> Scalars # {} /\ \E r \in {Shape} : \E q \in {Some(r)} : Assembled(r, 0, q) /\ Log(<<"vector", r, 0>> \o q, Cost(q))
    [] t \in 12..13 -> Scalars # {} /\ \E r \in {Shape} : \E c \in {Shape} : \E q \in {Some(r * c)} :
                       Assembled(r, c, q) /\ Log(<<"matrix", r, c>> \o q, Cost(q))
    [] t \in 14..17 -> \E k \in Pick : \E j \in Mate(k) : Add(k, j) /\ Log(<<"add", k, j>>, cost[j] + cost[k] + 1)
    [] t \in 18..19 -> \E k \in Pick : \E j \in Mate(k) : Subtract(k, j) /\ Log(<<"sub", k, j>>, cost[j] + cost[k] + 1)
    [] t = 20 -> \E k \in Pick : Negate(k) /\ Log(<<"neg", k>>, cost[k] + 1)
    [] t \in 21..28 -> \E k \in Pick : \E j \in Pick : Times(k, j) /\ Log(<<"mul", k, j>>, cost[j] + cost[k] + 1)
    [] t = 29 -> \E k \in One1(Scalars) : Square(k) /\ Log(<<"square", k>>, cost[k] + 2)
    [] t = 30 -> \E k \in One1(Scalars) : Cube(k) /\ Log(<<"cube", k>>, cost[k] + 2)
    [] t = 31 -> \E k \in Where(IsM) : Transposed(k) /\ Log(<<"transpose", k>>, cost[k] + 1)
    [] t = 32 -> \E k \in Where(IsV) : \E j \in Mate(k) : Dyadic(k, j) /\ Log(<<"dyadic", k, j>>, cost[k] + cost[j])
    [] t \in 33..34 -> \E k \in Where(LAMBDA x : ~IsS(x)) : \E n \in R(DOMAIN F(k).p) :
                       Subscript(k, n) /\ Log(<<"at", k, n>>, cost[k] + 1)
    [] t \in 35..38 -> \E k \in Pick : \E i \in R(1..dim) : Partial(k, i) /\ Log(<<"d", k, i>>, 3 * cost[k])
    [] t \in 39..46 -> \E k \in Pick : Gradient(k) /\ Log(<<"grad", k>>, (IF IsS(k) THEN 3 * dim ELSE 3 * dim * F(k).r) * cost[k])
    [] t \in 47..54 -> \E k \in Where(LAMBDA x : IsV(x) \/ IsM(x)) : Divergence(k) /\ Log(<<"div", k>>, (IF IsV(k) THEN 3 * dim ELSE 3 * dim * dim) * cost[k])
    [] OTHER -> FALSE
Options == 1..7 \cup (IF Scalars = {} THEN {} ELSE 8..54)
SimNext == \/ dim = 0 /\ \E d \in R({1, 2, 2, 3, 3}) : InSpace(d) /\ path' = <<<<"space", d>>>> /\ UNCHANGED cost
           \/ dim > 0 /\ \E a \in 1..8 : \E t \in R(Options) : Try(t) /\ Kept
           \/ dim > 0 /\ UNCHANGED mcvars
SimSpec == MCInit /\ [][SimNext]_mcvars
EmitRun == IF TLCGet("level") = Depth /\ path # <<>> THEN PrintT("@" \o ToJson(path)) ELSE TRUE
\* every field of monomials, its gradient and divergence, and what can be taken of these
TourSeq(d) == [n \in 1..d |-> n]
TourNext ==
  IF dim = 0 THEN \E d \in 1..3 : InSpace(d) /\ path' = <<<<"space", d>>>> /\ UNCHANGED cost
  ELSE IF Len(fn) < dim THEN Coordinate(Len(fn) + 1) /\ Log(<<"comp", Len(fn) + 1>>, 1)
  ELSE IF Len(fn) = dim THEN \E i, j \in 1..dim : i <= j /\ Times(i, j) /\ Log(<<"mul", i, j>>, 3)
  ELSE IF Len(fn) = dim + 1 THEN
         \E n \in 2..3 : \E k \in 1..n : \E x \in 1..dim :
           LET q == [i \in 1..n |-> IF i = k THEN Len(fn) ELSE x] IN Assembled(n, 0, q) /\ Log(<<"vector", n, 0>> \o q, 3)
  ELSE IF Len(fn) = dim + 2 THEN Gradient(Last) /\ Log(<<"grad", Last>>, 9)
  ELSE Len(fn) = dim + 3 /\ (\/ Divergence(Last) /\ Log(<<"div", Last>>, 9)
                             \/ Divergence(Last - 1) /\ Log(<<"div", Last - 1>>, 9)
                             \/ Gradient(Last - 2) /\ Log(<<"grad", Last - 2>>, 9)
                             \/ Transposed(Last) /\ Log(<<"transpose", Last>>, 9))
TourSpec == MCInit /\ [][TourNext]_mcvars
EmitTour == (Len(fn') = dim' + 4) => PrintT("@" \o ToJson(path'))
=============================================================================
