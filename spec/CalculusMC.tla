---------------------------- MODULE CalculusMC ----------------------------
EXTENDS Calculus, Json
CONSTANTS Depth, Budget
VARIABLES path,
          cost      \* how large an expression each function is (of no concern to the specification)
VARIABLES focus,    \* 0, or the function that everything is done to
          turn
mcvars == <<fn, path, cost, focus, turn>>
Still == UNCHANGED <<focus, turn>>
Log(op, n) == path' = Append(path, op) /\ cost' = Append(cost, n) /\ n <= Budget
R(s) == {RandomElement(s)}
Useful(f) == \E p \in DOMAIN f.t : \E i \in DOMAIN f.t[p] : f.t[p][i][1] # Bad
Kept == Useful(fn'[Len(fn')])
MCInit == Init /\ path = <<>> /\ cost = <<>> /\ focus = 0 /\ turn = 0
EmitEdge == PrintT("@" \o ToJson(path'))
EmitRun == IF Len(path) = Depth THEN PrintT("@" \o ToJson(path)) ELSE TRUE
\* every function of the library and its derivatives
TourNext == Still /\
  IF fn = <<>> THEN \/ \E n \in Names : Library(n) /\ Log(<<"lib", n>>, 1)
                    \/ \E n \in 1..4 : Power(n) /\ Log(<<"pow", n>>, 1)
  ELSE Len(fn) < Depth /\ Partial(Len(fn), 1) /\ Log(<<"d", Len(fn), 1>>, 1)
TourSpec == MCInit /\ [][TourNext]_mcvars
-----------------------------------------------------------------------------
Tuple(n, b) == [i \in 1..n |-> RandomElement((-b)..b)]
Of(dom, cod) == {k \in DOMAIN fn : Is2(k, dom, cod)}
One1(s) == IF s = {} THEN {} ELSE {RandomElement(s)}
All == DOMAIN fn
\* one of the latest with some preference
Pick == IF focus > 0 THEN {focus} ELSE IF fn = <<>> THEN {} ELSE {RandomElement({Len(fn), RandomElement(All), RandomElement(All)})}
First(s) == IF focus > 0 THEN s \cap {focus} ELSE One1(s)
Mate(k) == One1({j \in All : F(j).dom = F(k).dom /\ F(j).cod = F(k).cod})
Fellow(k) == One1({j \in All : F(j).dom = F(k).dom})
ConstKind(c) == c \in {"s", "v", "m"}
Try(t) ==
  CASE t \in 1..4 -> \E n \in R(Names) : Library(n) /\ Log(<<"lib", n>>, 1)
    [] t \in 5..6 -> \E n \in R(1..4) : Power(n) /\ Log(<<"pow", n>>, 1)
    [] t \in 7..9 -> \E n \in R(1..2) : Component(n) /\ Log(<<"comp", n>>, 1)
    [] t = 10 -> \E d \in R({"s", "v"}) : \E c \in R({"s", "v", "m"}) : \E a \in {Tuple(Size[c], 3)} :
                   Constant(d, c, a) /\ Log(<<"const", d, c>> \o a, 1)
    [] t = 11 -> \E d \in R({"s", "v"}) : \E c \in R({"s", "v"}) : \E n \in R(1..2) : Formula(d, c, n) /\ Log(<<"formula", d, c, n>>, 1)
    [] t \in 12..14 -> \E k \in Pick : \E j \in Mate(k) : Add(k, j) /\ Log(<<"add", k, j>>, cost[j] + cost[k] + 1)
    [] t = 15 -> \E k \in Pick : \E j \in Mate(k) : Subtract(k, j) /\ Log(<<"sub", k, j>>, cost[j] + cost[k] + 1)
    [] t = 16 -> \E k \in Pick : \E j \in Mate(k) : \E l \in Mate(k) : Add3(k, j, l) /\ Log(<<"add3", k, j, l>>, cost[j] + cost[k] + cost[l])
    [] t = 17 -> \E k \in Pick : \E j \in Mate(k) : \E a, b \in {RandomElement(-3..3)} :
                   Combine(a, b, k, j) /\ Log(<<"comb", a, b, k, j>>, cost[j] + cost[k] + 1)
    [] t \in 18..22 -> \E k \in Pick : \E j \in Fellow(k) : Multiply(k, j) /\ Log(<<"mul", k, j>>, cost[j] + cost[k] + 1)
    [] t \in 23..24 -> \E k \in Pick : \E j \in Fellow(k) : Divide(k, j) /\ Log(<<"div", k, j>>, cost[j] + cost[k] + 1)
    [] t = 25 -> \E k \in Pick : ConstKind(F(k).cod) /\ \E a \in {Tuple(Size[F(k).cod], 3)} :
                   AddConst(k, a) /\ Log(<<"addc", k, F(k).cod>> \o a, cost[k] + 1)
    [] t = 26 -> \E k \in Pick : ConstKind(F(k).cod) /\ \E a \in {Tuple(Size[F(k).cod], 3)} :
                   AddConst(k, a) /\ Log(<<"cadd", k, F(k).cod>> \o a, cost[k] + 1)
    [] t = 27 -> \E k \in Pick : ConstKind(F(k).cod) /\ \E a \in {Tuple(Size[F(k).cod], 3)} :
                   MinusConst(k, a) /\ Log(<<"subc", k, F(k).cod>> \o a, cost[k] + 1)
    [] t = 28 -> \E k \in Pick : ConstKind(F(k).cod) /\ \E a \in {Tuple(Size[F(k).cod], 3)} :
                   ConstMinus(a, k) /\ Log(<<"csub", k, F(k).cod>> \o a, cost[k] + 1)
    [] t \in 29..30 -> \E k \in Pick : \E c \in R({"s", "v", "m"}) : \E a \in {Tuple(Size[c], 3)} :
                   ConstTimes(c, a, k) /\ Log(<<"cmul", k, c>> \o a, cost[k] + 1)
    [] t \in 31..32 -> \E k \in Pick : \E c \in R({"s", "v", "m"}) : \E a \in {Tuple(Size[c], 3)} :
                   TimesConst(k, c, a) /\ Log(<<"mulc", k, c>> \o a, cost[k] + 1)
    [] t = 33 -> \E k \in Pick : \E a \in R({-4, -2, 2, 3, 4}) : OverConst(k, a) /\ Log(<<"divc", k, a>>, cost[k] + 1)
    [] t = 34 -> \E k \in Pick : \E c \in R({"s", "v", "m"}) : \E a \in {Tuple(Size[c], 3)} :
                   ConstOver(c, a, k) /\ Log(<<"cdiv", k, c>> \o a, cost[k] + 2)
    [] t = 35 -> \E k \in Pick : Negate(k) /\ Log(<<"neg", k>>, cost[k] + 1)
    [] t = 36 -> \E k \in First({j \in All : F(j).cod \in {"m", "r", "c"}}) : Transposed(k) /\ Log(<<"transpose", k>>, cost[k] + 1)
    [] t = 37 -> \E k \in First({j \in All : F(j).cod = "m"}) : Determinant(k) /\ Log(<<"det", k>>, cost[k] + 1)
    [] t = 38 -> \E k \in First({j \in All : F(j).cod = "m"}) : Inverted(k) /\ Log(<<"inv", k>>, cost[k] + 1)
    [] t = 39 -> \E k \in First({j \in All : F(j).cod = "v"}) : \E j \in Mate(k) : Dyadic(k, j) /\ Log(<<"dyadic", k, j>>, cost[k] + cost[j])
    [] t \in 40..42 -> \E k \in First({j \in All : F(j).cod # "s"}) : \E n \in R(1..Size[F(k).cod]) :
                   Subscript(k, n) /\ Log(<<"at" \o F(k).cod, k, n>>, cost[k] + 1)
    [] t \in 43..48 -> \E k \in Pick : \E j \in One1({i \in All : F(i).dom = F(k).cod}) :
                   Compose(j, k) /\ Log(<<"compose", j, k>>, cost[k] + cost[j] + 1)
    [] t \in 49..54 -> \E k \in Pick : \E n \in R(IF F(k).dom = "s" THEN {1} ELSE 1..2) : Partial(k, n) /\ Log(<<"d", k, n>>, 3 * cost[k])
    [] t \in 55..57 -> \E k \in Pick : Gradient(k) /\ Log(<<"grad", k>>, IF F(k).dom = "s" /\ F(k).cod = "s" THEN 3 * cost[k] ELSE 6 * cost[k] + 4)
    [] t \in 58..61 -> \E d \in R({"s", "v"}) : \E j \in One1(Of(d, "s")) : \E k \in One1(Of(d, "s")) :
                   Vector(j, k)
                   /\ Log(<<"vector", j, k>>, cost[j] + cost[k] + 3)
    [] t \in 62..64 -> \E j \in Pick : \E k \in One1({i \in All : F(i).cod = F(j).dom}) :
                   Compose(j, k) /\ Log(<<"compose", j, k>>, cost[k] + cost[j] + 1)
    [] OTHER -> FALSE
SimNext == Still /\ \E a \in 1..5 : \E t \in R(1..61) : Try(t) /\ Kept
SimSpec == MCInit /\ [][SimNext]_mcvars
-----------------------------------------------------------------------------
\* some functions, something made of them at random, and everything that can be done with that
Base(n) ==
  CASE n = 1 -> Power(2) /\ Log(<<"pow", 2>>, 1)
    [] n = 2 -> Library("sqrt") /\ Log(<<"lib", "sqrt">>, 1)
    [] n = 3 -> Component(1) /\ Log(<<"comp", 1>>, 1)
    [] n = 4 -> Component(2) /\ Log(<<"comp", 2>>, 1)
    [] n = 5 -> Vector(4, 3) /\ Log(<<"vector", 4, 3>>, 3)
    [] n = 6 -> Vector(2, 1) /\ Log(<<"vector", 2, 1>>, 3)
    [] n = 7 -> ConstTimes("m", <<1, 2, 3, 4>>, 3) /\ Log(<<"cmul", 3, "m", 1, 2, 3, 4>>, 2)
    [] n = 8 -> ConstTimes("m", <<1, -1, 2, 1>>, 1) /\ Log(<<"cmul", 1, "m", 1, -1, 2, 1>>, 2)
    [] n = 9 -> Formula("v", "v", 1) /\ Log(<<"formula", "v", "v", 1>>, 1)
    [] n = 10 -> Formula("s", "s", 1) /\ Log(<<"formula", "s", "s", 1>>, 1)
    [] n = 11 -> Multiply(3, 4) /\ Log(<<"mul", 3, 4>>, 2)
    [] n = 12 -> Power(1) /\ Log(<<"pow", 1>>, 1)
NBase == 12
FocusNext ==
  IF Len(fn) < NBase THEN Still /\ Base(Len(fn) + 1)
  ELSE IF Len(fn) = NBase THEN turn' = 11 /\ focus' = NBase + 1 /\ \E a \in 1..5 : \E t \in R((12 + 0 * Len(path))..64) : Try(t) /\ Kept
  ELSE /\ turn' = IF turn = 64 THEN 12 ELSE turn + 1
       /\ UNCHANGED focus
       /\ (\E a \in 1..3 : Try(turn') /\ Kept) \/ UNCHANGED <<fn, path, cost>>
FocusSpec == MCInit /\ [][FocusNext]_mcvars
EmitFocus == IF TLCGet("level") = Depth /\ Len(fn) > NBase THEN PrintT("@" \o ToJson(path)) ELSE TRUE
=============================================================================
