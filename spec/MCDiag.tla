------------------------------- MODULE MCDiag -------------------------------
(***************************************************************************)
(* The diagonalised state space next to the state space with               *)
(* A = V diag(L) V^-1, over the integers mod P, for every invertible V,    *)
(* every L, B, C, zi and input: the modes m carry h = V m at every step    *)
(* (Carries), the outputs agree (Agrees), and so does the final state.     *)
(***************************************************************************)
EXTENDS Rings
M == INSTANCE Machines WITH Add <- RAdd, Mul <- RMul, Neg <- RNeg, Cj <- RCj, Zero <- 0, One <- 1
Scal == 0..(P - 1)
V2 == [1..2 -> Scal]
M2 == [1..2 -> V2]
Det(m) == (m[1][1] * m[2][2] + (P - m[1][2]) * m[2][1]) % P
InvS(d) == CHOOSE e \in Scal : RMul(d, e) = 1
Inv(m) == LET e == InvS(Det(m))
          IN << <<RMul(e, m[2][2]), RMul(e, RNeg(m[1][2]))>>, <<RMul(e, RNeg(m[2][1])), RMul(e, m[1][1])>> >>
Dg(l) == << <<l[1], 0>>, <<0, l[2]>> >>
VARIABLES V, L, Bv, Cv, d, h, m, same
vars == <<V, L, Bv, Cv, d, h, m, same>>
A == M!MatMul(M!MatMul(V, Dg(L)), Inv(V))
Init ==
  /\ V \in {v \in M2 : Det(v) # 0} /\ L \in V2 /\ Bv \in V2 /\ Cv \in V2 /\ d \in {0, 1}
  /\ h \in V2 /\ m = M!MatVec(Inv(V), h)
  /\ same = TRUE
Next == \E x \in Scal :
  /\ h' = M!VecAdd(M!MatVec(A, h), M!VecScale(x, Bv))
  \* code: V^-1 B x drives the modes, C V reads them
  /\ same' = (RAdd(M!Dot(Cv, h), RMul(d, x)) = RAdd(M!Dot([i \in 1..2 |-> M!Dot(Cv, <<V[1][i], V[2][i]>>)], m), RMul(d, x)))
  /\ m' = M!VecAdd([i \in 1..2 |-> RMul(L[i], m[i])], M!VecScale(x, M!MatVec(Inv(V), Bv)))
  /\ UNCHANGED <<V, L, Bv, Cv, d>>
Spec == Init /\ [][Next]_vars
Carries == M!MatVec(V, m) = h
Agrees == same
=============================================================================
