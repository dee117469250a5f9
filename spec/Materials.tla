----------------------------- MODULE Materials -----------------------------
(* Two elastic materials under a deformation gradient F = M / Q, M of whole  *)
(* numbers. What involves logarithms is given per unit of A = (J^2-1)/2 - ln J, *)
(* J the determinant of F; stresses and tangents of the second are given     *)
(* pushed forward, P F^T and so on, where they are polynomials.              *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Q
VARIABLES M,        \* Q times the deformation gradient
          lame,     \* <<lambda, mu>> of the linear elastic material
          gent      \* <<kappa, mu, Jm>> of the Gent material
vars == <<M, lame, gent>>
I3 == 1..3
Id(s) == [i \in I3 |-> [j \in I3 |-> IF i = j THEN s ELSE 0]]
Delta(i, j) == IF i = j THEN 1 ELSE 0
Init == M = Id(Q) /\ lame = <<1, 1>> /\ gent = <<1, 1, 3>>
Set3 == {<<i, j>> : i, j \in I3}
Trace3(m) == m[1][1] + m[2][2] + m[3][3]
Det3(m) == m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2])
         - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
         + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
Times3(a, b) == [i \in I3 |-> [j \in I3 |-> a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j]]]
Transposed(a) == [i \in I3 |-> [j \in I3 |-> a[j][i]]]
Nudge(i, j, d) == M' = [M EXCEPT ![i][j] = @ + d] /\ UNCHANGED <<lame, gent>>
\* turned about an axis by a right angle, before or after the deformation
Turn(a) == [i \in I3 |-> [j \in I3 |-> IF i = a \/ j = a THEN Delta(i, j) ELSE IF j = (i % 3) + 1 THEN -1 ELSE IF i = (j % 3) + 1 THEN 1 ELSE 0]]
Rotate(a, before) == M' = TLCEval(IF before THEN Times3(M, Turn(a)) ELSE Times3(Turn(a), M)) /\ UNCHANGED <<lame, gent>>
Mirror == M' = TLCEval([i \in I3 |-> [j \in I3 |-> -M[i][j]]]) /\ UNCHANGED <<lame, gent>>
Flip == M' = TLCEval(Transposed(M)) /\ UNCHANGED <<lame, gent>>
Rest == M' = Id(Q) /\ UNCHANGED <<lame, gent>>
Lame(x, y) == y > 0 /\ x >= 0 /\ lame' = <<x, y>> /\ UNCHANGED <<M, gent>>
GentOf(k, m, j) == k > 0 /\ m > 0 /\ j > 0 /\ gent' = <<k, m, j>> /\ UNCHANGED <<M, lame>>
-----------------------------------------------------------------------------
\* linear elasticity: twice Q times the strain, twice Q times the stress, eight Q^2 times the energy
Strain(m) == [i \in I3 |-> [j \in I3 |-> m[i][j] + m[j][i] - 2 * Q * Delta(i, j)]]
StressOf(m) == LET e == Strain(m) IN [i \in I3 |-> [j \in I3 |-> lame[1] * Trace3(e) * Delta(i, j) + 2 * lame[2] * e[i][j]]]
RECURSIVE Dot9(_, _, _)
Dot9(a, b, n) == IF n = 0 THEN 0 ELSE LET i == ((n - 1) \div 3) + 1
                                          j == ((n - 1) % 3) + 1 IN a[i][j] * b[i][j] + Dot9(a, b, n - 1)
EnergyOf(m) == Dot9(StressOf(m), Strain(m), 9)
Moduli(i, j, k, l) == lame[1] * Delta(i, j) * Delta(k, l) + lame[2] * (Delta(i, k) * Delta(j, l) + Delta(i, l) * Delta(j, k))
-----------------------------------------------------------------------------
\* the Gent material
Jm == gent[3]
DetM == Det3(M)                                        \* Q^3 J
Left(m) == Times3(m, Transposed(m))                    \* Q^2 times the left Cauchy-Green tensor
Room(m) == (Jm + 3) * Q * Q - Trace3(Left(m))          \* Q^2 (Jm - tr C + 3)
Bears == DetM > 0 /\ Room(M) > 0
Q6 == Q * Q * Q * Q * Q * Q
\* of P F^T, the part of mu, times Room: Jm b - Room 1; that of kappa, per A^3, times Q^6: 2 (J^2 - 1) 1
KirchhoffMu(i, j) == Jm * Left(M)[i][j] - Room(M) * Delta(i, j)
KirchhoffKappa(i, j) == 2 * (DetM * DetM - Q6) * Delta(i, j)
\* of the tangents, the part of mu times Room^2
TangentMu(i, b, k, d) == LET r == Room(M)
                             B == Left(M) IN
  Jm * r * Delta(i, k) * B[b][d] + 2 * Jm * B[i][b] * B[k][d] + r * r * Delta(b, k) * Delta(d, i)
\* and that of kappa, per A^2, times Q^12, as <<a, b>> for a + b A
TangentKappa(i, b, k, d) == LET j == DetM * DetM - Q6 IN
  <<6 * j * j * Delta(i, b) * Delta(k, d), 4 * DetM * DetM * Q6 * Delta(i, b) * Delta(k, d) - 2 * j * Q6 * Delta(b, k) * Delta(d, i)>>
-----------------------------------------------------------------------------
\* stresses are derivatives of energies, tangents those of stresses: central differences of what is at most quadratic
Bump(m, i, j, d) == [m EXCEPT ![i][j] = @ + d]
ElasticConsistent == \A p \in Set3 :
  LET up == Bump(M, p[1], p[2], 1)
      down == Bump(M, p[1], p[2], -1) IN
  \* the energy has no part that is not quadratic: with eight Q^2 and two Q for units
  /\ EnergyOf(up) - EnergyOf(down) = 8 * StressOf(M)[p[1]][p[2]]
  /\ \A r \in Set3 : StressOf(up)[r[1]][r[2]] - StressOf(down)[r[1]][r[2]] = 4 * Moduli(r[1], r[2], p[1], p[2])
Major == \A p, r \in Set3 : Moduli(p[1], p[2], r[1], r[2]) = Moduli(r[1], r[2], p[1], p[2]) /\ Moduli(p[1], p[2], r[1], r[2]) = Moduli(p[2], p[1], r[1], r[2])
Cof(m) == [i \in I3 |-> [j \in I3 |-> LET a == (i % 3) + 1
                                          b == (a % 3) + 1
                                          c == (j % 3) + 1
                                          d == (c % 3) + 1 IN m[a][c] * m[b][d] - m[a][d] * m[b][c]]]
DRoom(i, j) == (Room(Bump(M, i, j, 1)) - Room(Bump(M, i, j, -1))) \div 2
DDet(i, j) == Det3(Bump(M, i, j, 1)) - Det3(M)
\* W = -(Jm ln Room + 2 ln J)/2: dW = -(Jm DRoom / Room + 2 DDet / DetM)/2, contracted with F^T
GentStress == Bears =>
  \A p \in Set3 : LET s == [j \in I3 |-> -(Jm * DetM * DRoom(p[1], j) + 2 * Room(M) * DDet(p[1], j))] IN
    s[1] * M[p[2]][1] + s[2] * M[p[2]][2] + s[3] * M[p[2]][3] = 2 * DetM * KirchhoffMu(p[1], p[2])
\* P = Jm/Room M - Cof/Det (in units of M): its derivative by M[k][l], times Room^2 Det^2
DCof(k, l) == [i \in I3 |-> [j \in I3 |-> Cof(Bump(M, k, l, 1))[i][j] - Cof(M)[i][j]]]
GentTangent == Bears =>
  \E r \in {Room(M)}, c \in {Cof(M)}, dc \in {[k \in I3 |-> [l \in I3 |-> DCof(k, l)]]} :
  \E dP \in {[i \in I3 |-> [j \in I3 |-> [k \in I3 |-> [l \in I3 |->
     Jm * DetM * DetM * (r * Delta(i, k) * Delta(j, l) - DRoom(k, l) * M[i][j])
     - r * r * (DetM * dc[k][l][i][j] - c[k][l] * c[i][j])]]]]} :
  \A i, b, k, d \in I3 :
    LET at(j) == dP[i][j][k][1] * M[d][1] + dP[i][j][k][2] * M[d][2] + dP[i][j][k][3] * M[d][3] IN
    at(1) * M[b][1] + at(2) * M[b][2] + at(3) * M[b][3] = DetM * DetM * TangentMu(i, b, k, d)
TangentsSymmetric == Bears => \A i, b, k, d \in I3 : TangentMu(i, b, k, d) = TangentMu(k, d, i, b) /\ TangentKappa(i, b, k, d) = TangentKappa(k, d, i, b)
TurnsBack == \A a \in I3 : Det3(Turn(a)) = 1 /\ Times3(Turn(a), Transposed(Turn(a))) = Id(1)
NoStressAtRest == M = Id(Q) => \A i, j \in I3 : StressOf(M)[i][j] = 0 /\ KirchhoffMu(i, j) = 0 /\ KirchhoffKappa(i, j) = 0
TypeOK == \A p \in Set3 : M[p[1]][p[2]] \in Int
=============================================================================
