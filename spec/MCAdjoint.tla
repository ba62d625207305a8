------------------------------ MODULE MCAdjoint ------------------------------
(***************************************************************************)
(* The backward passes.  Forward: the state recursion of the machine over  *)
(* multi-dual numbers, matrices, inputs and output weights chosen step by  *)
(* step, so that every derivative of every output is there.  Backward: the *)
(* sweep the autograd functions make,                                      *)
(*    lam_t = A_(t+1)^H lam_(t+1) + w_t      (grad of x_t)                 *)
(*    grad zi = A_1^H lam_1,   grad A_t = lam_t h_(t-1)^H  (summed over t  *)
(*    when A is shared).                                                   *)
(* At the end both are the derivative of Re <w, h> in every direction, for *)
(* real and imaginary unit perturbations (Exact).  Jvp: the tangent formula*)
(* dh_t = A_t dh_(t-1) + (dA_t h_(t-1) + dx_t), also at the end.           *)
(***************************************************************************)
EXTENDS Rings
CONSTANTS Md, NMax, TV, Cplx
D == INSTANCE Machines WITH Add <- DCAdd, Mul <- DCMul, Neg <- DCNeg, Cj <- DCCj, Zero <- DCZero, One <- DCOne
M == INSTANCE Machines WITH Add <- CAdd, Mul <- CMul, Neg <- CNeg, Cj <- CCj, Zero <- CZero, One <- COne
Scal == IF Cplx THEN (0..(P - 1)) \X (0..(P - 1)) ELSE (0..(P - 1)) \X {0}
Units == IF Cplx THEN << <<1, 0>>, <<0, 1>> >> ELSE << <<1, 0>> >>
U == Len(Units)
Mats == [1..Md -> [1..Md -> Scal]]
\* both sides are additive in the initial state, the inputs and the weights:
\* zero and the units are enough of them
Vecs == {M!Zeros(Md)} \cup {[i \in 1..Md |-> IF i = k THEN Units[u] ELSE CZero] : k \in 1..Md, u \in 1..U}

VARIABLES ph, t, A, x, w, h,   \* trace of the forward pass (plain)
          hd,                  \* current dual state
          L,                   \* sum of w_t^* dh_t so far: by direction
          lam, gx, gA, gzi     \* backward
vars == <<ph, t, A, x, w, h, hd, L, lam, gx, gA, gzi>>

\* directions: zi (Md*U), x (Md*U per step), A (Md*Md*U, per step when TV)
NA == IF TV THEN NMax ELSE 1
DirZ(i, u) == (i - 1) * U + u
DirX(s, i, u) == Md * U * s + (i - 1) * U + u
DirA(s, i, j, u) == Md * U * (NMax + 1) + ((s - 1) * Md * Md + (i - 1) * Md + (j - 1)) * U + u
NDir == Md * U * (NMax + 1) + NA * Md * Md * U
Seed(v, base) == <<v, [k \in 1..NDir |-> IF k > base /\ k <= base + U THEN Units[k - base] ELSE CZero]>>
MatD(m, s) == [i \in 1..Md |-> [j \in 1..Md |-> Seed(m[i][j], DirA(IF TV THEN s ELSE 1, i, j, 0))]]
VecD(v, s) == [i \in 1..Md |-> Seed(v[i], DirX(s, i, 0))]
Ctr(m) == [i \in 1..Md |-> [j \in 1..Md |-> CCj(m[j][i])]]
E(d, k) == IF d[2] = <<>> THEN CZero ELSE d[2][k]

Init ==
  /\ ph = "fwd" /\ t = 0 /\ x = <<>> /\ w = <<>>
  /\ A = <<>>
  /\ \E z \in Vecs : h = <<z>> /\ hd = [i \in 1..Md |-> Seed(z[i], DirZ(i, 0))]
  /\ L = [k \in 1..NDir |-> 0]
  /\ lam = M!Zeros(Md) /\ gx = <<>> /\ gA = [s \in 1..NA |-> [i \in 1..Md |-> M!Zeros(Md)]] /\ gzi = M!Zeros(Md)
Fwd ==
  /\ ph = "fwd" /\ t < NMax
  /\ \E m \in IF TV \/ t = 0 THEN Mats ELSE {A[1]}, v \in Vecs, ww \in Vecs :
       LET n == D!VecAdd(D!MatVec(MatD(m, t + 1), hd), VecD(v, t + 1))
       IN /\ A' = Append(A, m) /\ x' = Append(x, v) /\ w' = Append(w, ww)
          /\ hd' = n /\ h' = Append(h, [i \in 1..Md |-> n[i][1]])
          /\ L' = TLCEval([k \in 1..NDir |-> LET RECURSIVE S(_) S(i) == IF i > Md THEN 0 ELSE RAdd(CRe(ww[i], E(n[i], k)), S(i + 1)) IN RAdd(L[k], S(1))])
  /\ t' = t + 1
  /\ UNCHANGED <<ph, lam, gx, gA, gzi>>
Turn == ph = "fwd" /\ t > 0 /\ ph' = "bwd" /\ UNCHANGED <<t, A, x, w, h, hd, L, lam, gx, gA, gzi>>
N == Len(x)
Bwd ==
  /\ ph = "bwd" /\ t > 0
  /\ LET l == M!VecAdd(IF t = N THEN M!Zeros(Md) ELSE M!MatVec(Ctr(A[t + 1]), lam), w[t])
         ga == [i \in 1..Md |-> [j \in 1..Md |-> CMul(l[i], CCj(h[t][j]))]]
         s == IF TV THEN t ELSE 1
     IN /\ lam' = l /\ gx' = <<l>> \o gx
        /\ gA' = [gA EXCEPT ![s] = TLCEval([i \in 1..Md |-> [j \in 1..Md |-> CAdd(@[i][j], ga[i][j])]])]
        /\ gzi' = IF t = 1 THEN M!MatVec(Ctr(A[1]), l) ELSE gzi
  /\ t' = t - 1
  /\ ph' = IF t = 1 THEN "end" ELSE ph
  /\ UNCHANGED <<A, x, w, h, hd, L>>
Next == Fwd \/ Turn \/ Bwd
Spec == Init /\ [][Next]_vars
Exact ==
  ph = "end" =>
    \A u \in 1..U : \A i \in 1..Md :
      /\ L[DirZ(i, u)] = CRe(gzi[i], Units[u])
      /\ \A s \in 1..N : L[DirX(s, i, u)] = CRe(gx[s][i], Units[u])
      /\ \A j \in 1..Md : \A s \in 1..(IF TV THEN N ELSE 1) : L[DirA(s, i, j, u)] = CRe(gA[s][i][j], Units[u])
\* the tangent recursion driven by dA h + dx, direction by direction
Tangent(k) ==
  LET RECURSIVE T(_)
      T(s) == IF s = 0 THEN [i \in 1..Md |-> IF k \in {DirZ(i, u) : u \in 1..U} THEN Units[k - DirZ(i, 0)] ELSE CZero]
              ELSE LET dx == [i \in 1..Md |-> IF k > DirX(s, i, 0) /\ k <= DirX(s, i, U) THEN Units[k - DirX(s, i, 0)] ELSE CZero]
                       q == IF TV THEN s ELSE 1
                       dA == [i \in 1..Md |-> [j \in 1..Md |-> IF k > DirA(q, i, j, 0) /\ k <= DirA(q, i, j, U) THEN Units[k - DirA(q, i, j, 0)] ELSE CZero]]
                   IN M!VecAdd(M!MatVec(A[s], T(s - 1)), M!VecAdd(M!MatVec(dA, h[s]), dx))
  IN T(N)
Jvp == ph = "end" => \A k \in 1..NDir : \A i \in 1..Md : Tangent(k)[i] = E(hd[i], k)
=============================================================================
