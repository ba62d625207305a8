------------------------------- MODULE MCPfe --------------------------------
(***************************************************************************)
(* Partial fractions by deflation, one residue per transition, for every   *)
(* numerator and every choice of poles and multiplicities over the         *)
(* integers mod P: the remainder of b after the polynomial part is divided *)
(* by s - p again and again, each time taking the residue times the other  *)
(* factors away; in 1/z the same on the reversed polynomials with          *)
(* reciprocal poles.                                                       *)
(*  Expands   the terms add up to b/a (Helpers!PfOk)                       *)
(*  Unique    and with one residue changed they do not                     *)
(*  Divides   every division leaves the residue's share and no remainder   *)
(***************************************************************************)
EXTENDS Rings, SequencesExt, FiniteSets
CONSTANTS Nb, M1, M2, M3, Z     \* length of b, multiplicities of the poles (0: not there), in 1/z?
H == INSTANCE Helpers WITH Add <- RAdd, Mul <- RMul, Neg <- RNeg, Cj <- RCj, Zero <- 0, One <- 1, Bad <- -1
Scal == 0..(P - 1)
Mults == SelectSeq(<<M1, M2, M3>>, LAMBDA m : m > 0)
Inv(x) == CHOOSE y \in Scal : RMul(x, y) = 1
RECURSIVE Pow(_, _), Rep(_, _), Over(_, _, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE RMul(x, Pow(x, n - 1))
Rep(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)
\* division by a polynomial with leading coefficient l: <<quotient, remainder>>
Over(u, v, q) ==
  IF Len(u) < Len(v) THEN <<q, u>>
  ELSE LET d == RMul(u[1], Inv(v[1]))
       IN Over([i \in 1..(Len(u) - 1) |-> RAdd(u[i + 1], IF i < Len(v) THEN RNeg(RMul(d, v[i + 1])) ELSE 0)], v, Append(q, d))
Div(u, v) == Over(u, v, <<>>)

VARIABLES b, ps, a0, i, num, blk, res      \* numerator, poles, leading coefficient; pole, what is left of the numerator, residues
vars == <<b, ps, a0, i, num, blk, res>>
M == Len(Mults)
All == H!FromRoots([j \in 1..Len(ps) |-> ps[j]])
Poles == LET F[j \in 0..M] == IF j = 0 THEN <<>> ELSE F[j - 1] \o Rep(ps[j], Mults[j]) IN F[M]
A == H!VecScale(a0, H!FromRoots(Poles))
\* what is expanded: in 1/z the reversed polynomials
U == IF Z THEN H!Rev(b) ELSE b
V == IF Z THEN H!Rev(A) ELSE A
At(j) == IF Z THEN Inv(ps[j]) ELSE ps[j]
KR == Div(U, V)
Others(j) == LET F[n \in 0..M] == IF n = 0 THEN <<1>> ELSE IF n = j THEN F[n - 1]
                                   ELSE H!PolyMul(F[n - 1], H!FromRoots(Rep(At(n), Mults[n]))) IN F[M]
Init ==
  /\ b \in [1..Nb -> Scal] /\ a0 \in IF P > 5 THEN {1, 2} ELSE 1..(P - 1)
  /\ ps \in {p \in [1..M -> IF Z THEN 1..(P - 1) ELSE Scal] : \A j, n \in 1..M : j # n => p[j] # p[n]}
  /\ i = 1 /\ blk = <<>> /\ res = <<>>
  /\ num = KR[2]
\* one residue: numer = q (s - p) + n, r = n / factor(p), numer becomes (numer - r factor) / (s - p)
Residue ==
  /\ i <= M
  /\ LET mono == <<1, RNeg(At(i))>>
         f == Others(i)
         r == RMul(H!PolyAt(num, At(i)), Inv(H!PolyAt(f, At(i))))
         left == Div(H!PolyAdd(num, H!PolyNeg(H!VecScale(r, f))), mono)
     IN /\ num' = IF Len(left[1]) = 0 THEN <<0>> ELSE left[1]
        /\ \A j \in 1..Len(left[2]) : left[2][j] = 0
        /\ blk' = <<r>> \o blk
  /\ Len(blk) < Mults[i]
  /\ UNCHANGED <<b, ps, a0, i, res>>
NextPole ==
  /\ i <= M /\ Len(blk) = Mults[i]
  /\ i' = i + 1 /\ blk' = <<>>
  /\ num' = KR[2]
  /\ res' = res \o [k \in 1..Mults[i] |-> RMul(blk[k], Inv(V[1])) ]
  /\ UNCHANGED <<b, ps, a0>>
Next == Residue \/ NextPole
Spec == Init /\ [][Next]_vars
Done == i > M
\* (in z, over (1 - p/z)^k instead of (1/z - 1/p)^k)
Final == [k \in 1..Len(res) |-> IF Z THEN RMul(res[k], Pow(RNeg(Poles[k]), H!Power(Poles, k))) ELSE res[k]]
Obs(r) == [r |-> r, p |-> Poles, k |-> IF Z THEN H!Rev(KR[1]) ELSE KR[1]]
Call == [opt |-> [fn |-> IF Z THEN "z" ELSE "s", d |-> 1, inv |-> 1, polys |-> <<b, A>>]]
Expands == Done => H!PfOk(Call, Obs(Final))
Unique == Done => \A n \in 1..Len(res) : \A v \in Scal \ {Final[n]} : ~H!PfOk(Call, Obs([Final EXCEPT ![n] = v]))
Divides == ~Done => Len(blk) = Mults[i] \/ ENABLED Residue
=============================================================================
