------------------------------ MODULE MCNewton ------------------------------
(***************************************************************************)
(* The parallel Newton iteration over the integers mod 3, where every      *)
(* function is a polynomial c0 + c1 y + c2 y^2: N steps, any functions,    *)
(* any first guess.  One transition is one iteration, made as the code     *)
(* makes it: linearise about the shifted guess, solve the linear           *)
(* recurrence.  After i iterations the first i values are those of the     *)
(* sequential recurrence (Prefix); affine functions are solved by the      *)
(* first iteration (AffineAtOnce); the solution stays (Stays).             *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT N
Z == 0..2
VARIABLES f, init, y, it
vars == <<f, init, y, it>>
F(t, v) == (f[t][1] + f[t][2] * v + f[t][3] * v * v) % 3
DF(t, v) == (f[t][2] + 2 * f[t][3] * v) % 3
RECURSIVE Seq_(_)
Seq_(t) == IF t = 0 THEN init ELSE F(t, Seq_(t - 1))
Prev(t) == IF t = 1 THEN init ELSE y[t - 1]
\* u_t = J_t u_(t-1) + (F_t - J_t prev_t), u_0 = init
RECURSIVE Lin(_)
Lin(t) == IF t = 0 THEN init ELSE (DF(t, Prev(t)) * Lin(t - 1) + F(t, Prev(t)) + 3 * 3 - DF(t, Prev(t)) * Prev(t)) % 3
Init == f \in [1..N -> [1..3 -> Z]] /\ init \in Z /\ y \in [1..N -> Z] /\ it = 0
Next == it < N + 1 /\ y' = [t \in 1..N |-> Lin(t)] /\ it' = it + 1 /\ UNCHANGED <<f, init>>
Spec == Init /\ [][Next]_vars
Prefix == \A t \in 1..N : t <= it => y[t] = Seq_(t)
AffineAtOnce == it >= 1 /\ (\A t \in 1..N : f[t][3] = 0) => \A t \in 1..N : y[t] = Seq_(t)
Stays == it > N => \A t \in 1..N : y[t] = Seq_(t)
=============================================================================
