------------------------------ MODULE MCBlocked ------------------------------
(***************************************************************************)
(* The blocked algorithms of philtorch over the free monoid: for all       *)
(* signals, matrices and sizes of the state at once, every length N <= MaxN*)
(* and every block size K.                                                 *)
(*                                                                         *)
(* A symbolic vector is a set of terms.  Time invariant: <<e, s>> is       *)
(* A^e x_s (s = 0: the initial state).  Time varying: <<s, h>> is          *)
(* A_h ... A_(s+1) x_s; a symbolic matrix is <<lo, hi>> = A_hi ... A_lo    *)
(* and <<>> = 0 (the padding).  A product that does not join up, or a term *)
(* that is added twice, leaves a "bad" term behind that nothing removes.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANT MaxN
VARIABLES n, k
vars == <<n, k>>

Plus(u, v) == IF u \cap v # {} THEN u \cup v \cup {<<-1, -1>>} ELSE u \cup v
SumAll(q) == FoldLeft(Plus, {}, q)
Ceil(a, b) == (a + b - 1) \div b
\* prime factors, ascending, with multiplicity
RECURSIVE Fac(_, _)
Fac(m, p) == IF m = 1 THEN <<>> ELSE IF m % p = 0 THEN <<p>> \o Fac(m \div p, p) ELSE Fac(m, p + 1)
FacUp(m) == Fac(m, 2)
FacDown(m) == Reverse(FacUp(m))

---------------------------------------------------------------------------
(* matrix_power_accumulate: exponents of what it returns, base A^e *)
RECURSIVE PowRun(_, _)
PowRun(e, fs) ==
  LET f == Head(fs)  acc == [i \in 1..f |-> i * e]
  IN IF Len(fs) = 1 THEN acc
     ELSE LET hi == PowRun(acc[f], Tail(fs))
          IN acc \o FlattenSeq([j \in 1..(Len(hi) - 1) |-> [i \in 1..(f - 1) |-> acc[i] + hi[j]] \o <<hi[j + 1]>>])
PowAcc(e, m) == IF m = 1 THEN <<e>> ELSE PowRun(e, FacUp(m))
PowersRight == PowAcc(1, n) = [i \in 1..n |-> i]

(* matrices_cumdot: words of what it returns for the letters q, multiplied *)
(* from the left to the right                                              *)
\* ty "w": words, joined; ty "m": symbolic matrices (below)
MMul(u, v) == IF u = <<>> \/ v = <<>> THEN <<>> ELSE IF u[1] = v[2] + 1 THEN <<v[1], u[2]>> ELSE <<-7, -7>>
Mul(ty, u, v) == IF ty = "w" THEN u \o v ELSE MMul(u, v)
RECURSIVE CumRun(_, _, _)
CumRun(ty, q, fs) ==
  LET w == fs[Len(fs)]                       \* the fastest axis
      rows == Len(q) \div w
      acc == [r \in 1..rows |-> LET RECURSIVE F(_) F(i) == IF i = 1 THEN q[(r - 1) * w + 1] ELSE Mul(ty, F(i - 1), q[(r - 1) * w + i])
                                IN [i \in 1..w |-> F(i)]]
  IN IF Len(fs) = 1 THEN acc[1]
     ELSE LET blk == CumRun(ty, [r \in 1..rows |-> acc[r][w]], SubSeq(fs, 1, Len(fs) - 1))
          IN acc[1] \o FlattenSeq([r \in 1..(rows - 1) |-> [i \in 1..(w - 1) |-> Mul(ty, blk[r], acc[r + 1][i])] \o <<blk[r + 1]>>])
CumDot(ty, q) == IF Len(q) <= 1 THEN q ELSE CumRun(ty, q, FacDown(Len(q)))
CumRight == CumDot("w", [i \in 1..n |-> <<i>>]) = [i \in 1..n |-> [j \in 1..i |-> j]]

---------------------------------------------------------------------------
(* lti.state_space_recursion and lti.linear_recurrence *)
Sh(e, v) == {<<t[1] + e, t[2]>> : t \in v}
RECURSIVE Loop(_, _, _)
Loop(e, h, x) == IF x = <<>> THEN <<>> ELSE LET g == Plus(Sh(e, h), Head(x)) IN <<g>> \o Loop(e, g, Tail(x))
RECURSIVE Blk(_, _, _, _)
Blk(e, zi, x, K) ==
  IF K = 1 \/ K >= Len(x) THEN Loop(e, zi, x)
  ELSE
  LET nb == Ceil(Len(x), K)
      u == [i \in 1..(nb * K) |-> IF i <= Len(x) THEN x[i] ELSE {}]
      pw == PowAcc(e, K)                                  \* A, ..., A^K
      plus == [i \in 1..K |-> IF i = K THEN 0 ELSE pw[K - i]]     \* A^(K-1), ..., A, I
      z == [j \in 1..nb |-> SumAll([i \in 1..K |-> Sh(plus[i], u[(j - 1) * K + i])])]
      ini == <<zi>> \o Blk(pw[K], zi, z, K)
      out == [j \in 1..nb |-> [p \in 1..K |->
               IF p = K THEN ini[j + 1]
               ELSE Plus(Sh(pw[p], ini[j]), SumAll([i \in 1..p |-> Sh(IF i = p THEN 0 ELSE pw[p - i], u[(j - 1) * K + i])]))]]
  IN SubSeq(FlattenSeq(out), 1, Len(x))
Seq0 == [t \in 1..n |-> {<<0, t>>}]
LtiRight == Blk(1, {<<0, 0>>}, Seq0, k) = [t \in 1..n |-> {<<t - s, s>> : s \in 0..t}]

---------------------------------------------------------------------------
(* lpv.state_space_recursion and lpv.linear_recurrence *)
App(m, v) == IF m = <<>> THEN {} ELSE {IF t[2] + 1 = m[1] /\ t # <<-1, -1>> THEN <<t[1], m[2]>> ELSE <<-1, -1>> : t \in v}
RECURSIVE VLoop(_, _, _)
VLoop(A, h, x) == IF x = <<>> THEN <<>> ELSE LET g == Plus(App(Head(A), h), Head(x)) IN <<g>> \o VLoop(Tail(A), g, Tail(x))
RECURSIVE VBlk(_, _, _, _)
VBlk(A, zi, x, K) ==
  IF K = 1 \/ K >= Len(x) THEN VLoop(A, zi, x)
  ELSE
  LET nb == Ceil(Len(x), K)
      u(j, i) == LET q == (j - 1) * K + i IN IF q <= Len(x) THEN x[q] ELSE {}
      a(j, i) == LET q == (j - 1) * K + i IN IF q <= Len(x) THEN A[q] ELSE <<>>
      \* A_K ... A_(i+1) for i = 1..K-1
      cum == [j \in 1..nb |-> Reverse(CumDot("m", [i \in 1..(K - 1) |-> a(j, K + 1 - i)]))]
      whole == [j \in 1..nb |-> MMul(cum[j][1], a(j, 1))]
      z == [j \in 1..nb |-> SumAll([i \in 1..K |-> IF i = K THEN u(j, K) ELSE App(cum[j][i], u(j, i))])]
      ini == <<zi>> \o VBlk(whole, zi, z, K)
      out == [j \in 1..nb |-> VLoop([i \in 1..(K - 1) |-> a(j, i)], ini[j], [i \in 1..(K - 1) |-> u(j, i)]) \o <<ini[j + 1]>>]
  IN SubSeq(FlattenSeq(out), 1, Len(x))
LpvRight ==
  VBlk([t \in 1..n |-> <<t, t>>], {<<0, 0>>}, [t \in 1..n |-> {<<t, t>>}], k) = [t \in 1..n |-> {<<s, t>> : s \in 0..t}]

---------------------------------------------------------------------------
(* comb_filter with delay k: the signal folded into k rows, each row a     *)
(* recurrence; terms <<e, s>> = (-a)^e x_s, s <= 0 the past outputs        *)
CombRight ==
  LET nb == Ceil(n, k)
      x == [t \in 1..(nb * k) |-> IF t <= n THEN {<<0, t>>} ELSE {}]
      zi == [i \in 1..k |-> {<<0, 1 - i>>}]               \* registers, newest first
      rows == [r \in 1..k |-> Loop(1, Reverse(zi)[r], [j \in 1..nb |-> x[(j - 1) * k + r]])]
      y == SubSeq([t \in 1..(nb * k) |-> rows[((t - 1) % k) + 1][((t - 1) \div k) + 1]], 1, n)
      zf == Reverse(LET all == Reverse(zi) \o y IN SubSeq(all, Len(all) - k + 1, Len(all)))
      RECURSIVE Y(_)
      Y(t) == IF t <= 0 THEN {<<0, t>>} ELSE Plus({<<0, t>>}, Sh(1, Y(t - k)))
  IN y = [t \in 1..n |-> Y(t)] /\ zf = [i \in 1..k |-> Y(n + 1 - i)]

Init == n = 1 /\ k = 1
Next == IF k <= n + 1 THEN k' = k + 1 /\ n' = n ELSE n < MaxN /\ n' = n + 1 /\ k' = 1
Spec == Init /\ [][Next]_vars
=============================================================================
