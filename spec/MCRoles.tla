------------------------------ MODULE MCRoles ------------------------------
(***************************************************************************)
(* How shapes are read.  For every batch size, length, state size, number  *)
(* of features and outputs up to MaxD (and five different ones up to 6), real and vector inputs, fixed and   *)
(* varying coefficients, and every role of the tables of Machines:         *)
(*  Reads      the shape a role has is read as that role when the sizes    *)
(*             differ from each other and from one                         *)
(*  Unambiguous and then no other role of the table fits                   *)
(*  Earlier    in any case what is read is a role that fits, and none      *)
(*             before it does                                              *)
(***************************************************************************)
EXTENDS Rings, FiniteSets
CONSTANT MaxD
M == INSTANCE Machines WITH Add <- RAdd, Mul <- RMul, Neg <- RNeg, Cj <- RCj, Zero <- 0, One <- 1
Dim == 1..MaxD
VARIABLES sz, tv, sc, tab, role
vars == <<sz, tv, sc, tab, role>>
Call == [op |-> "ss", tv |-> tv, B |-> sz.B, N |-> sz.N,
         arg |-> [A |-> [s |-> <<sz.M, sz.M>>], x |-> [s |-> IF sc THEN <<sz.B, sz.N>> ELSE <<sz.B, sz.N, sz.F>>]]]
Table(n) == CASE n = "B" -> M!BRoles(Call) [] n = "C" -> M!CRoles(Call) [] n = "D" -> M!DRoles(Call)
Roles == Table(tab)
ShapeOf(r) == [i \in 1..Len(r) |-> CASE r[i] = "B" -> sz.B [] r[i] = "N" -> sz.N [] r[i] = "M" -> sz.M
                                     [] r[i] = "F" -> sz.F [] r[i] = "K" -> sz.K [] r[i] = "1" -> 1]
Keys == {"B", "N", "M", "F", "K"}
\* all small sizes, and all ways to give five different ones
Init == /\ sz \in [Keys -> Dim] \cup {f \in [Keys -> 2..6] : Cardinality({f[k] : k \in Keys}) = 5}
        /\ tv = FALSE /\ sc = TRUE /\ tab = "B" /\ role = 1
Next ==
  \/ role < Len(Roles) /\ role' = role + 1 /\ UNCHANGED <<sz, tv, sc, tab>>
  \/ role = 1 /\ tab' \in {"B", "C", "D"} /\ tv' \in BOOLEAN /\ sc' \in BOOLEAN /\ UNCHANGED <<sz, role>>
Spec == Init /\ [][Next]_vars
Distinct == Cardinality({sz[k] : k \in DOMAIN sz} \cup {1}) = 6
S == ShapeOf(Roles[role])
Got == M!FirstFit(Call, S, Roles)
\* K stands for any number of outputs: a role that differs by K alone fits as well, but is read later
Fit == {i \in 1..Len(Roles) : M!Fits(Call, S, Roles[i])}
Strict == {i \in Fit : \A j \in 1..Len(Roles[i]) : Roles[i][j] # "K" \/ Roles[role][j] = "K"}
Reads == Distinct => Got = Roles[role]
Unambiguous == Distinct => Strict = {role}
Earlier == \E i \in Fit : Got = Roles[i] /\ \A j \in Fit : i <= j
=============================================================================
