-------------------------- MODULE CombinatoricsMC --------------------------
EXTENDS Combinatorics, TLC, Json
CONSTANTS N, Depth
VARIABLE path
mcvars == <<ref, cur, sign, path>>
Log(op) == path' = Append(path, op)
R(s) == {RandomElement(s)}
\* distinct values that are neither consecutive nor ascending
Values(n) == [i \in 1..n |-> (7 * i * i - 20 * i + 3)]
Arrangements(n) == {q \in [1..n -> {Values(n)[i] : i \in 1..n}] : Distinct(q)}
MCInit == Init /\ path = <<>>
MCBegin == path = <<>> /\ Begin(Values(N)) /\ Log(<<"begin", Values(N)>>)
MCNext == \/ MCBegin
          \/ path # <<>> /\ \E i, j \in 1..N : i < j /\ Swap(i, j) /\ Log(<<"swap", i, j>>)
          \/ path # <<>> /\ Rotate /\ Log(<<"rotate">>)
          \/ path # <<>> /\ Rebase /\ Log(<<"rebase">>)
MCSpec == MCInit /\ [][MCNext]_mcvars
View == <<vars, path = <<>>>>
EmitEdge == PrintT("@" \o ToJson(path'))
EmitRun == IF Len(path) = Depth THEN PrintT("@" \o ToJson(path)) ELSE TRUE
RandomList(n, k) == [i \in 1..n |-> RandomElement(1..k)]
Shuffled(n) == LET v == Values(n) IN
  LET F[k \in 0..n] == IF k = 0 THEN v ELSE LET q == F[k - 1] IN
                          LET j == RandomElement(k..n) IN Swapped(q, k, j)
  IN F[n]
SimNext ==
  IF path = <<>> THEN \E n \in R(1..N) : \E q \in {Shuffled(n)} : Begin(q) /\ Log(<<"begin", q>>)
  ELSE \E t \in R(1..12) :
    CASE t \in 1..6 /\ Len(cur) > 1 -> \E i \in R(DOMAIN cur) : \E j \in R(DOMAIN cur \ {i}) : Swap(i, j) /\ Log(<<"swap", i, j>>)
      [] t \in 7..8 -> Rotate /\ Log(<<"rotate">>)
      [] t = 9 -> Rebase /\ Log(<<"rebase">>)
      [] t = 10 -> \E n \in R(1..N) : \E q \in {Shuffled(n)} : Begin(q) /\ Log(<<"begin", q>>)
      [] OTHER -> \E n \in R(1..N) : \E k \in R(1..3) : \E q \in {RandomList(n, k)} :
                    \E r \in {IF t = 11 THEN RandomList(n, k) ELSE SortSeq(q, LAMBDA a, b : a > b)} :
                      UNCHANGED vars /\ Log(<<"same", q, r>>)
SimSpec == MCInit /\ [][SimNext]_mcvars
=============================================================================
