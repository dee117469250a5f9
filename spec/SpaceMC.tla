------------------------------ MODULE SpaceMC ------------------------------
EXTENDS Space, TLC, Json
CONSTANTS Grid,        \* from the corner at -6, -6, -6
          Depth, Metric       \* asking for the metric, or for all the rest
VARIABLE path
mcvars == <<vars, path>>
View == vars
Log(op) == path' = Append(path, op)
Ask(op) == UNCHANGED vars /\ Log(op)
R(s) == {RandomElement(s)}
Flat(vs) == [k \in 1..(Len(vs) * D) |-> vs[((k - 1) \div D) + 1][((k - 1) % D) + 1]]
Positions == [Dim -> {g - 6 : g \in Grid}]
Unit(i) == [j \in Dim |-> Delta(i, j)]
MCInit == Init /\ path = <<>>
\* one system, two points, any where; then anything
MCNext ==
  IF Len(sys) = 0 THEN \E k \in Kinds : New(k) /\ Log(<<"new", k>>)
  ELSE IF npoints < (IF Metric THEN 1 ELSE 2) THEN \E x \in Positions : Place(1, x) /\ Log(<<"place", 1>> \o x)
  ELSE /\ Len(sys) = 1
       /\ Len(path) = (IF Metric THEN 2 ELSE 3)
       /\ IF Metric THEN Regular(S(1).kind, At(1, 1)) /\ \E i \in Dim : LET j == (i % D) + 1 IN
                Ask(<<"metric", 1, 1>> \o Unit(i) \o Unit(j) \o Unit((j % D) + 1) \o Unit(i))
          ELSE
          \/ \E k \in Kinds : Change(1, k) /\ Log(<<"change", 1, k>>)
          \/ \E i \in Dim : Shift(1, 1, Unit(i)) /\ Log(<<"shift", 1, 1>> \o Unit(i))
          \/ Middle(1, 1, 2) /\ Log(<<"mid", 1, 1, 2>>)
          \/ Ask(<<"diff", 1, 1, 2>>)
          \/ Ask(<<"cell", 1, 2, 1, 2, 1>>)
MCSpec == MCInit /\ [][MCNext]_mcvars
EmitEdge == (Len(path') > (IF Metric THEN 2 ELSE 3)) => PrintT("@" \o ToJson(path'))
EmitRun == IF Len(path) = Depth THEN PrintT("@" \o ToJson(path)) ELSE TRUE
\* random histories; positions are often on the axes, vectors small
RV(b) == [i \in Dim |-> RandomElement((-b)..b)]
RX(s) == IF RandomElement(1..3) = 1 THEN [i \in Dim |-> RandomElement({-4, -2, 0, 0, 0, 2, 4})] ELSE RV(8)
Systems == DOMAIN sys
SomePoint(s) == IF Placed(s) = {} THEN {} ELSE {RandomElement(Placed(s))}
Small(x) == \A i \in Dim : Abs(x[i]) <= 24
RECURSIVE Choice(_, _)
Choice(set, n) == IF n = 0 \/ set = {} THEN <<>> ELSE LET x == RandomElement(set) IN <<x>> \o Choice(set \ {x}, n - 1)
Try(t) ==
  IF sys = <<>> THEN \E k \in R(Kinds) : New(k) /\ Log(<<"new", k>>)
  ELSE \E s \in R(Systems) :
  CASE t = 1 -> Len(sys) < 5 /\ \E k \in R(Kinds) : New(k) /\ Log(<<"new", k>>)
    [] t \in 2..6 -> npoints < 12 /\ \E x \in {RX(s)} : Place(s, x) /\ Log(<<"place", s>> \o x)
    [] t = 7 -> npoints > 0 /\ \E p \in R(1..npoints) : \E x \in {RX(s)} : Also(s, p, x) /\ Log(<<"also", s, p>> \o x)
    [] t = 8 -> Len(sys) < 5 /\ Placed(s) # {} /\ \E k \in R(Kinds) : Change(s, k) /\ Log(<<"change", s, k>>)
    [] t \in 9..11 -> npoints < 16 /\ \E p \in SomePoint(s) : \E v \in {RV(2)} : Small(Add(At(s, p), Mul(4, v)))
                     /\ Shift(s, p, v) /\ Log(<<"shift", s, p>> \o v)
    [] t \in 12..13 -> npoints < 16 /\ \E p \in SomePoint(s) : \E q \in SomePoint(s) : Middle(s, p, q) /\ Log(<<"mid", s, p, q>>)
    [] t \in 14..16 -> \E p \in SomePoint(s) : \E q \in SomePoint(s) : Ask(<<"diff", s, p, q>>)
    [] t \in 17..20 -> \E n \in R(1..D) : \E c \in {Choice(Placed(s), n + 1)} : \E b \in {[i \in 1..n |-> RandomElement(-1..4)]} :
                         Len(c) = n + 1 /\ Ask(<<"cell", s, n + 1>> \o c \o b)
    [] t \in 21..26 -> \E p \in SomePoint(s) : Regular(S(s).kind, At(s, p))
                         /\ \E u \in {RV(3)} : \E v \in {RV(3)} : \E w \in {RV(3)} : \E a \in {RV(3)} : Ask(<<"metric", s, p>> \o u \o v \o w \o a)
    [] OTHER -> FALSE
SimNext == \E a \in 1..8 : \E t \in R(IF Metric THEN (1..8) \cup (21..26) ELSE 1..20) : Try(t)
SimSpec == MCInit /\ [][SimNext]_mcvars
=============================================================================
