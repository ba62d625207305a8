------------------------------ MODULE MCSpline ------------------------------
(***************************************************************************)
(* Cubic spline coefficients over GF(13), where z = 2 is a root of         *)
(* z^2 + 4z + 1: every signal of L samples.  The recursions run once       *)
(* round the mirrored signal; of all first values the periodic one is what *)
(* the infinite sum stands for (the code's geometric sum up to rounding).  *)
(* Both forms then give coefficients with                                  *)
(*      (c[i-1] + 4 c[i] + c[i+1]) / 6 = x[i]                              *)
(* where the ends are continued by the mirror (Interpolates, and the two   *)
(* forms agree, FormsAgree), and the spline shows x at every m-th sample   *)
(* (Hits).                                                                 *)
(***************************************************************************)
EXTENDS Rings, SequencesExt
CONSTANTS L, Scipy, Vals       \* Vals: the values of samples tried
S == INSTANCE Helpers WITH Add <- RAdd, Mul <- RMul, Neg <- RNeg, Cj <- RCj, Zero <- 0, One <- 1, Bad <- -1
F == 0..12
z == 2
Inv(d) == CHOOSE e \in F : RMul(d, e) = 1
VARIABLES x, t, h, h0,          \* samples, position on the way round, recursion values, the first one
          c                     \* coefficients by form, <<>> before they are known
vars == <<x, t, h, h0, c>>
Per == IF Scipy THEN 2 * L ELSE 2 * L - 2
\* sample i >= 1 of the mirrored periodic signal
Xm(i) == LET j == (i - 1) % Per IN IF j < L THEN x[j + 1] ELSE IF Scipy THEN x[2 * L - j] ELSE x[2 * L - 1 - j]
Init == x \in [1..L -> Vals] /\ t = 0 /\ h0 \in F /\ h = <<h0>> /\ c = <<>>
\* once round
Go == t < Per /\ t' = t + 1 /\ h' = Append(h, RAdd(RMul(z, h[Len(h)]), Xm(t + 1))) /\ UNCHANGED <<x, h0, c>>
Ok == h[Per + 1] = h0
\* parallel: causal + anticausal - x
Par ==
  LET H(i) == h[((i - 1) % Per) + 2]        \* causal value at sample i
      \* anticausal value at i: the causal one of the mirrored position
      mir(i) == IF Scipy THEN 2 * L + 1 - i ELSE ((2 * L - i - 1) % Per) + 1
      k == RMul(RNeg(RMul(6, z)), Inv(RAdd(1, RNeg(RMul(z, z)))))
  IN [i \in 1..L |-> RMul(k, RAdd(RAdd(H(i), H(mir(i))), RNeg(x[i])))]
\* cascaded: from the last one down
Casc ==
  LET H(i) == h[i + 1]
      last == IF Scipy THEN RMul(RMul(z, Inv(RAdd(z, 12))), H(L))
              ELSE RMul(RMul(RNeg(z), Inv(RAdd(1, RNeg(RMul(z, z))))), RAdd(RMul(2, H(L)), RNeg(x[L])))
      RECURSIVE D(_)
      D(i) == IF i = L THEN last ELSE RAdd(RMul(z, D(i + 1)), RMul(RNeg(z), H(i)))
  IN TLCEval([i \in 1..L |-> RMul(6, D(i))])
Solve == t = Per /\ c = <<>> /\ Ok /\ c' = <<Par, Casc>> /\ UNCHANGED <<x, t, h, h0>>
Next == Go \/ Solve
Spec == Init /\ [][Next]_vars
At(q, i) == LET n == L IN IF i >= 1 /\ i <= n THEN q[i]
                         ELSE IF Scipy THEN (IF i < 1 THEN q[1 - i] ELSE q[2 * n + 1 - i]) ELSE (IF i < 1 THEN q[2 - i] ELSE q[2 * n - i])
FormsAgree == c # <<>> => c[1] = c[2]
Interpolates == c # <<>> => \A i \in 1..L : RAdd(RAdd(At(c[1], i - 1), RMul(4, c[1][i])), At(c[1], i + 1)) = RMul(6, x[i])
Hits == c # <<>> => \A m \in {2, 3, 5} : \A i \in 1..L :
  LET cc == [op |-> "spline", B |-> 1, opt |-> [m |-> m, scipy |-> Scipy],
             arg |-> [c |-> [s |-> <<1, L>>, v |-> <<c[1]>>], x |-> [s |-> <<1, L>>, v |-> <<x>>]]]
  IN S!SpY(cc, 1, [i |-> i, u |-> 0]) = RMul((6 * m * m * m) % 13, x[i])
=============================================================================
