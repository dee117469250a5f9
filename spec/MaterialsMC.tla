---------------------------- MODULE MaterialsMC ----------------------------
EXTENDS Materials, Json
CONSTANTS Depth, MaxEntry, MaxSteps
VARIABLE path
mcvars == <<vars, path>>
Log(op) == path' = Append(path, op)
R(s) == {RandomElement(s)}
MCInit == Init /\ path = <<>>
Fits(m) == \A p \in Set3 : m[p[1]][p[2]] \in (-MaxEntry)..MaxEntry
\* the ranges of numbers that fit in the words of the checker
Bounded == Fits(M) /\ DetM \in -20..20 /\ DetM # 0
Stay == Fits(M') /\ Det3(M') \in -20..20 /\ Det3(M') # 0
SmallNext ==
  /\ Len(path) < MaxSteps
  /\ \/ \E i, j \in I3, d \in {-1, 1} : Nudge(i, j, d) /\ Stay /\ Log(<<"nudge", i, j, d>>)
     \/ \E a \in I3, t \in BOOLEAN : Rotate(a, t) /\ Log(<<"rotate", a, IF t THEN 1 ELSE 0>>)
SmallSpec == MCInit /\ [][SmallNext]_mcvars
View == vars
EmitEdge == PrintT("@" \o ToJson(path'))
Z == 0 * Len(path)
Try(t) ==
  CASE t \in 1..9 -> \E i, j \in R(1..(3 + Z)) : \E d \in R((-2 + Z)..2) : Nudge(i, j, d) /\ Stay /\ Log(<<"nudge", i, j, d>>)
    [] t = 10 -> \E a \in R(1..(3 + Z)) : \E b \in R(0..(1 + Z)) : Rotate(a, b = 1) /\ Log(<<"rotate", a, b>>)
    [] t = 11 -> Mirror /\ Log(<<"mirror">>)
    [] t = 12 -> Flip /\ Log(<<"flip">>)
    [] t = 13 -> RandomElement(0..(3 + Z)) = 0 /\ Rest /\ Log(<<"rest">>)
    [] t \in 14..15 -> \E x \in R(0..(9 + Z)), y \in R(1..(9 + Z)) : Lame(x, y) /\ Log(<<"lame", x, y>>)
    [] t \in 16..17 -> \E k, m \in R(1..(9 + Z)) : \E j \in R(2..(12 + Z)) : GentOf(k, m, j) /\ Log(<<"gent", k, m, j>>)
SimNext == (\E a \in 1..3 : \E t \in R(1..(17 + Z)) : Try(t)) \/ UNCHANGED mcvars
SimSpec == MCInit /\ [][SimNext]_mcvars
EmitRun == IF TLCGet("level") = Depth /\ path # <<>> THEN PrintT("@" \o ToJson(path)) ELSE TRUE
=============================================================================
