----------------------------- MODULE RefusalsMC -----------------------------
EXTENDS Refusals, Json
CONSTANTS Depth, Group
VARIABLES path, block
mcvars == <<rvars, path, block>>
Log(op) == path' = Append(path, op)
H == Cardinality(Handles)
\* all lists of handles, group after group
Tips == <<<<1, -1>>, <<1, 1>>, <<2, -1>>, <<2, 1>>, <<3, -1>>, <<3, 1>>, <<4, -1>>, <<4, 1>>>>
Families == <<
  <<<<1, 2>>, <<2, 1>>, <<2, 3>>, <<3, 2>>, <<3, 1>>, <<1, 3>>, <<1, 4>>, <<4, 2>>>>,
  <<<<1, 2, 3>>, <<1, 3, 2>>, <<2, 4, 3>>, <<2, 3, 4>>, <<4, 2, 1>>, <<2, 4, 1>>, <<4, 1, 3>>, <<1, 4, 3>>>>,
  <<<<1, 2, 3>>, <<1, 3, 2>>, <<1, 4, 5>>, <<1, 5, 4>>, <<2, 4, 3>>, <<4, 2, 1>>, <<4, 1, 3>>, <<5, 2, 1>>>> >>
Size(f) == IF f = 0 THEN 2 ELSE Len(Families[f][1]) + 1
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Lists(f) == Pow(H, Size(f))
Digit(t, i) == ((t \div Pow(H, i - 1)) % H) + 1
ListOf(f, t) == [i \in 1..Size(f) |-> Digit(t, i)]
Blocks == UNION {{<<f, b>> : b \in 0..((Lists(f) - 1) \div Group)} : f \in 0..3}
RECURSIVE MakeAllOf(_, _, _)
MakeAllOf(c, f, i) == IF i > H THEN c ELSE MakeAllOf(TLCEval(Make(c, Families[f][i])), f, i + 1)
Nothing == [f |-> <<>>, r |-> {}]
Prepared(f) == IF f = 0 THEN [f |-> <<>>, r |-> {Tip(Tips[i][1], Tips[i][2]) : i \in 1..H}] ELSE MakeAllOf(Nothing, f, 1)
Prefix(f) == [i \in 1..V |-> <<"node">>]
             \o [i \in 1..H |-> IF f = 0 THEN <<"tip", i, Tips[i][1], Tips[i][2]>> ELSE <<"simplex", i>> \o Families[f][i]]
GroupInit == \E b \in Blocks : LET c == TLCEval(Prepared(b[1])) IN
  /\ block = <<b[1], b[2] * Group>> /\ path = Prefix(b[1])
  /\ nv = V /\ vh = 1..V /\ fp = c.f /\ reg = c.r
  /\ h = [i \in 1..H |-> IF b[1] = 0 THEN Tip(Tips[i][1], Tips[i][2]) ELSE Oriented(Families[b[1]][i])]
  /\ at = [c2 \in Frames |-> [p \in 1..V |-> Nowhere]] /\ field = [f \in Fields |-> [p \in 1..V |-> None]] /\ cells = <<>>
Last(b) == b[2] % Group = Group - 1 \/ b[2] = Lists(b[1]) - 1
GroupNext == /\ block[2] >= 0
             /\ LET j == ListOf(block[1], block[2]) IN Try("compose", j) /\ Log(<<"try", "compose">> \o j)
             /\ block' = IF Last(block) THEN <<block[1], -1>> ELSE <<block[1], block[2] + 1>>
GroupSpec == GroupInit /\ [][GroupNext]_mcvars
EmitGroup == block'[2] = -1 => PrintT("@" \o ToJson(path'))
-----------------------------------------------------------------------------
R(s) == {RandomElement(s)}
Z == 0 * Len(path)
Held(d) == {k \in Handles : Bound(k) /\ Dim(h[k].s) = d}
Ask(what, a) == Askable(what, a) /\ Try(what, a) /\ Log(<<"try", what>> \o a)
\* handles of some dimension, or those of the facets of a simplex as far as they are at hand
AnyList(d, n) == [i \in 1..n |-> RandomElement(Held(d))]
Least(s) == CHOOSE k \in s : \A m \in s : k <= m
Around(s, b) == {k \in Handles : h[k] \in Comp(s, b) /\ \A m \in Handles : h[m] = h[k] => k <= m}
Orders(s, n) == {q \in [1..n -> s] : Cardinality(Range(q)) = n}
Some(n) == [i \in 1..n |-> RandomElement(Nodes)]
Different(n) == LET q == Some(n) IN {q} 
Cell(k) == LET q == SeqTable[h[k].s][RandomElement({-1 + Z, 1})] IN
  CASE Len(q) = 2 -> q [] Len(q) = 3 -> RandomElement({q, <<q[2], q[3], q[1]>>, <<q[3], q[1], q[2]>>})
    [] OTHER -> RandomElement({q, <<q[2], q[1], q[4], q[3]>>, <<q[3], q[4], q[1], q[2]>>, <<q[2], q[3], q[1], q[4]>>})
Mangled(q) == [q EXCEPT ![RandomElement(DOMAIN q)] = RandomElement(Nodes)]
Try3(t) ==
  CASE t \in 1..5 -> \E k \in R(Handles), n \in R((2 + Z)..4) : \E q \in {Some(n)} : Simplex(k, q) /\ Log(<<"simplex", k>> \o q)
    [] t = 6 -> \E k \in R(Handles), v \in R(Nodes), o \in R({-1 + Z, 1}) : Oriented0(k, v, o) /\ Log(<<"tip", k, v, o>>)
    [] t \in 7..8 -> \E k \in R(Handles), j \in R({j \in Handles : Bound(j)} \cup {1}) : Flipped(k, j) /\ Log(<<"flip", k, j>>)
    \* a facet of what is at hand, or a simplex with a facet in common
    [] t \in 9..13 -> \E k \in R(Handles) : \E j \in R({j \in Handles : Bound(j)} \cup {1}) : Bound(j) /\ Dim(h[j].s) \in 1..2 /\
                       \E q \in {Mangled(SeqTable[h[j].s][RandomElement({-1 + Z, 1})])} : Simplex(k, q) /\ Log(<<"simplex", k>> \o q)
    [] t \in 14..16 -> \E c \in R(Frames), p \in R(Nodes), x, y \in R((0 + Z)..9) : Place(c, p, <<x, y>>) /\ Log(<<"place", c, p, x, y>>)
    [] t \in 17..18 -> \E f \in R(Fields), p \in R(Nodes), x \in R((0 + Z)..9) : Fill(f, p, x) /\ Log(<<"fill", f, p, x>>)
    [] t = 19 -> \E f \in R(Fields), p \in R(Nodes), x \in R((0 + Z)..9) : Write(f, p, x) /\ Log(<<"write", f, p, x>>)
    [] t = 20 -> Len(cells) < 4 /\ \E q \in {Some(3)} : Insert(q) /\ Log(<<"insert">> \o q)
    [] t \in 21..23 -> \E d \in R({d \in 0..2 : Held(d) # {}} \cup {-1 + Z}) : d >= 0 /\ \E a \in {AnyList(d, d + 2)} : Ask("compose", a)
    \* the facets of a simplex, in any order, perhaps with one replaced
    [] t \in 24..26 -> \E s \in R({s \in Simplices : Cardinality(s) > 2 /\ s \subseteq Nodes}), b \in R({-1 + Z, 1}) :
                         LET ks == Around(s, b) IN Cardinality(ks) = Cardinality(s) /\
                         \E q \in R(Orders(ks, Cardinality(s))) : \E m \in R({0, 1 + Z}) :
                           Ask("compose", IF m = 0 THEN q ELSE [q EXCEPT ![1] = RandomElement(Held(Cardinality(s) - 2))])
    [] t \in 27..28 -> \E n \in R((2 + Z)..4) : \E a \in {Some(n)} : Ask("vertices", a)
    [] t \in 29..30 -> Held(2) # {} /\ \E a \in {AnyList(2, 2)} : Ask("diagonal", a)
    [] t \in 31..33 -> \E what \in R({"place", "where"} \cup {w \in {} : Z = 1}) : \E c \in R(Frames), p \in R(Nodes) : Ask(what, <<c, p>>)
    [] t \in 34..36 -> \E what \in R({"fill", "read", "write"} \cup {w \in {} : Z = 1}) : \E f \in R(Fields), p \in R(Nodes) : Ask(what, <<f, p>>)
    [] t \in 37..40 -> \E d \in R({d \in 1..3 : Held(d) # {}} \cup {-1 + Z}) : d >= 0 /\ \E k \in R(Held(d)) : \E q \in {Cell(k)} : \E m \in R((0 + Z)..3) :
                         Ask("cell", <<k>> \o (IF m = 0 THEN Mangled(q) ELSE q))
    [] t \in 41..42 -> Held(1) # {} /\ \E k \in R(Held(1)) : Ask("side", <<k>>)
    [] t = 43 -> \E n \in R((1 + Z)..5) : Ask("file", <<n>>)
    [] OTHER -> FALSE
RandomInit == RInit /\ path = <<>> /\ block = <<>>
RandomNext == /\ UNCHANGED block
              /\ IF nv < V THEN Node /\ Log(<<"node">>)
                 ELSE (\E a \in 1..3 : \E t \in R((1 + Z)..43) : Try3(t)) \/ UNCHANGED <<rvars, path>>
RandomSpec == RandomInit /\ [][RandomNext]_mcvars
EmitRun == IF TLCGet("level") = Depth /\ path # <<>> THEN PrintT("@" \o ToJson(path)) ELSE TRUE
=============================================================================
