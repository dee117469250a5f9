------------------------------ MODULE FormsMC ------------------------------
EXTENDS Forms, Json
CONSTANTS Depth
VARIABLE path
mcvars == <<form, path>>
Log(op) == path' = Append(path, op)
R(s) == {RandomElement(s)}
Basis(i) == [j \in Dim |-> IF i = j THEN 1 ELSE 0]
Flat(m) == [k \in 1..(D * D) |-> m[((k - 1) \div D) + 1][((k - 1) % D) + 1]]
FlatV(vs) == [k \in 1..(Len(vs) * D) |-> vs[((k - 1) \div D) + 1][((k - 1) % D) + 1]]
OpenSeq(p, open) == [k \in 1..p |-> IF k \in open THEN 1 ELSE 0]
\* which arguments may be left open: some
OpenSets(p) == (SUBSET (1..p)) \ {{}}
Ask(name, args, p, open, vs) == <<name>> \o args \o OpenSeq(p, open) \o FlatV(vs)
MCInit == Init /\ path = <<>>
\* the basis, and every product of its one-forms on every basis vector
MCNext ==
  IF Len(form) < D THEN LET v == Basis(Len(form) + 1) IN
        FromDiagonal(v, [i \in Dim |-> 1]) /\ Log(<<"one">> \o v)
  ELSE /\ Len(form) = D
       /\ \/ \E i, j \in Dim : \E o \in OpenSets(2) : \E t \in (IF o = 1..2 THEN {1} ELSE Dim) : LET vs == <<Basis(t), Basis(t)>> IN
                 \/ Tensor2(i, j, o, vs) /\ Log(Ask("tensor2", <<i, j>>, 2, o, vs))
                 \/ Wedge2(i, j, o, vs) /\ Log(Ask("wedge2", <<i, j>>, 2, o, vs))
          \/ \E i, j, k \in Dim : \E o \in OpenSets(3) : \E t, u \in (IF o = 1..3 THEN {1} ELSE Dim) :
               LET vs == IF Cardinality(o) = 1 /\ 1 \in o THEN <<Basis(t), Basis(t), Basis(u)>> ELSE <<Basis(t), Basis(u), Basis(u)>> IN
                 \/ Tensor3(i, j, k, o, vs) /\ Log(Ask("tensor3", <<i, j, k>>, 3, o, vs))
                 \/ WedgeThree(i, j, k, o, vs) /\ Log(Ask("wedge3", <<i, j, k>>, 3, o, vs))
MCSpec == MCInit /\ [][MCNext]_mcvars
\* every one-form of the basis with every product of two
MCNext12 ==
  IF Len(form) < D THEN LET v == Basis(Len(form) + 1) IN
        FromDiagonal(v, [i \in Dim |-> 1]) /\ Log(<<"one">> \o v)
  ELSE IF Len(form) = D THEN \E i, j \in Dim : LET vs == <<Basis(1), Basis(1)>> IN
                 \/ Tensor2(i, j, 1..2, vs) /\ Log(Ask("tensor2", <<i, j>>, 2, 1..2, vs))
                 \/ Wedge2(i, j, 1..2, vs) /\ Log(Ask("wedge2", <<i, j>>, 2, 1..2, vs))
  ELSE Len(form) = D + 1 /\ Alternates(F(D + 1)) /\ \E i \in Dim : WedgeOneTwo(i, D + 1) /\ Log(<<"wedge12", i, D + 1>>)
MCSpec12 == MCInit /\ [][MCNext12]_mcvars
EmitEdge == PrintT("@" \o ToJson(path'))
EmitRun == IF Len(path) = Depth THEN PrintT("@" \o ToJson(path)) ELSE TRUE
RV(b) == [i \in Dim |-> RandomElement((-b)..b)]
RM(s) == LET m == [i \in Dim |-> [j \in Dim |-> RandomElement(-2..2)]] IN [i \in Dim |-> [j \in Dim |-> IF i <= j THEN m[i][j] ELSE m[j][i]]]
Degree(p, b) == {i \in DOMAIN form : form[i].p = p /\ Norm(form[i]) <= b}
SomeAlternating == LET s == {i \in Degree(2, 1000) : Alternates(F(i))} IN IF s = {} THEN {} ELSE {RandomElement(s)}
Some(p, b) == LET s == Degree(p, b) IN IF s = {} THEN {} ELSE {RandomElement(s)}
AnyForm(b) == LET s == {i \in DOMAIN form : Norm(form[i]) <= b} IN IF s = {} THEN {} ELSE {RandomElement(s)}
Try(t) ==
  CASE t \in 1..3 -> \E v \in {RV(3)} : FromDiagonal(v, [i \in Dim |-> 1]) /\ Log(<<"one">> \o v)
    [] t \in 4..5 -> \E v \in {RV(3)} : \E g \in {RV(2)} : FromDiagonal(v, g) /\ Log(<<"diag">> \o v \o g)
    [] t \in 6..7 -> \E v \in {RV(3)} : \E m \in {RM(v)} : FromSymmetric(v, m) /\ Log(<<"sym">> \o v \o Flat(m))
    [] t = 8 -> \E i \in AnyForm(100000) : \E j \in AnyForm(100000) : Add(i, j) /\ Log(<<"add", i, j>>)
    [] t = 9 -> \E i \in AnyForm(100000) : \E j \in AnyForm(100000) : Subtract(i, j) /\ Log(<<"sub", i, j>>)
    [] t = 10 -> \E i \in AnyForm(100000) : Negate(i) /\ Log(<<"neg", i>>)
    [] t = 11 -> \E i \in AnyForm(100000) : \E a \in R(-3..3) : Scale(a, i) /\ Log(<<"scale", a, i>>)
    [] t = 12 -> \E i \in AnyForm(100000) : \E a \in R(-3..3) : Scale(a, i) /\ Log(<<"wedge0", a, i>>)
    [] t \in 13..15 -> \E i \in Some(1, 60) : \E j \in Some(1, 60) : \E o \in R(OpenSets(2)) : \E v, w \in {RV(2)} :
           LET vs == <<v, w>> IN
             \/ t = 13 /\ Tensor2(i, j, o, vs) /\ Log(Ask("tensor2", <<i, j>>, 2, o, vs))
             \/ t = 14 /\ Wedge2(i, j, o, vs) /\ Log(Ask("wedge2", <<i, j>>, 2, o, vs))
             \/ t = 15 /\ \E a \in R(-3..3) : Mixed2(a, i, j, o, vs) /\ Log(Ask("mixed2", <<a, i, j>>, 2, o, vs))
    [] t \in 16..18 -> \E i \in Some(1, 40) : \E j \in Some(1, 40) : \E k \in Some(1, 40) : \E o \in R(OpenSets(3)) : \E v \in {RV(2)} : \E w \in {RV(2)} : \E u \in {RV(2)} :
           LET vs == <<v, w, u>> IN
             \/ t = 16 /\ Tensor3(i, j, k, o, vs) /\ Log(Ask("tensor3", <<i, j, k>>, 3, o, vs))
             \/ t = 17 /\ WedgeThree(i, j, k, o, vs) /\ Log(Ask("wedge3", <<i, j, k>>, 3, o, vs))
             \/ t = 18 /\ \E a \in R(-3..3) : Mixed3(a, i, j, k, o, vs) /\ Log(Ask("mixed3", <<a, i, j, k>>, 3, o, vs))
    [] t \in 19..21 -> \E i \in Some(1, 60) : \E j \in SomeAlternating : WedgeOneTwo(i, j) /\ Log(<<"wedge12", i, j>>)
    [] t \in 22..26 -> \E i \in AnyForm(1000000) : \E vs \in {[k \in 1..form[i].p |-> RV(2)]} : UNCHANGED form /\ Log(<<"eval", i>> \o FlatV(vs))
    [] OTHER -> FALSE
SimNext == \E a \in 1..10 : \E t \in R(1..26) : Try(t)
SimSpec == MCInit /\ [][SimNext]_mcvars
=============================================================================
