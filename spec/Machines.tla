------------------------------ MODULE Machines ------------------------------
(***************************************************************************)
(* What philtorch computes, as state machines that consume one sample per  *)
(* transition.  The arithmetic is a parameter: a commutative ring with a   *)
(* conjugation.  Instances used elsewhere: residues mod a prime (values of *)
(* exactly computed real or complex results), dual and hyper-dual numbers  *)
(* over them (first and second derivatives), and Z_k for k = 2, 3          *)
(* (exhaustive model checking).                                            *)
(*                                                                         *)
(* A call is a record c:                                                   *)
(*   op    "rec" scalar recurrence        "ssr" state recursion            *)
(*         "ss"  state space              "lf"  lfilter (opt.form)         *)
(*         "fir", "ap" fir and allpole (opt.tr)    "comb" comb_filter      *)
(*   tv    coefficients vary in time (philtorch.lpv) or not (philtorch.lti)*)
(*   B, N  rows of the batch, time steps                                   *)
(*   arg   the tensor arguments that are present: [s |-> shape, v |-> data]*)
(*   opt   the other arguments                                             *)
(* The role of every argument is resolved from its shape, exactly once,    *)
(* here; everything below the accessors is the textbook machine.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Add(_, _), Mul(_, _), Neg(_), Cj(_), Zero, One

Sub(a, b) == Add(a, Neg(b))

RECURSIVE DotFrom(_, _, _)
DotFrom(u, v, i) == IF i > Len(u) THEN Zero ELSE Add(Mul(u[i], v[i]), DotFrom(u, v, i + 1))
Dot(u, v) == DotFrom(u, v, 1)
MatVec(A, v) == TLCEval([i \in 1..Len(A) |-> Dot(A[i], v)])
VecAdd(u, v) == TLCEval([i \in 1..Len(u) |-> Add(u[i], v[i])])
VecScale(a, v) == TLCEval([i \in 1..Len(v) |-> Mul(a, v[i])])
Zeros(n) == [i \in 1..n |-> Zero]
E1(a, n) == [i \in 1..n |-> IF i = 1 THEN a ELSE Zero]
MatMul(A, C) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(C[1]) |->
                   DotFrom(A[i], [k \in 1..Len(C) |-> C[k][j]], 1)]])
\* newest value first, oldest value dropped
Push(a, q) == IF Len(q) = 0 THEN <<>> ELSE <<a>> \o SubSeq(q, 1, Len(q) - 1)

Has(c, n) == n \in DOMAIN c.arg
Sh(c, n) == c.arg[n].s
Val(c, n) == c.arg[n].v
Rk(c, n) == Len(Sh(c, n))
LastDim(c, n) == Sh(c, n)[Rk(c, n)]

X(c, b, t) == IF Rk(c, "x") = 1 THEN Val(c, "x")[t] ELSE Val(c, "x")[b][t]

-----------------------------------------------------------------------------
(* Scalar recurrence  h' = a h + x *)
RecA(c, b, t) ==
  LET a == Val(c, "a")  s == Sh(c, "a")
  IN IF ~c.tv THEN (IF s = <<>> THEN a ELSE IF s[1] = 1 THEN a[1] ELSE a[b])
     ELSE IF Len(s) = 1 THEN a[t] ELSE a[b][t]
RecInit(c, b) ==
  LET z == Val(c, "zi")  s == Sh(c, "zi")
  IN IF s = <<>> THEN z ELSE IF s[1] = 1 THEN z[1] ELSE z[b]
RecStep(c, b, t, h) == LET n == Add(Mul(RecA(c, b, t), h), X(c, b, t)) IN [y |-> n, r |-> n]

-----------------------------------------------------------------------------
(* State recursion and state space *)
StA(c, b, t) ==
  LET A == Val(c, "A")  r == Rk(c, "A")
  IN IF ~c.tv THEN (IF r = 2 THEN A ELSE A[b]) ELSE IF r = 3 THEN A[t] ELSE A[b][t]
Mdim(c) == LastDim(c, "A")
StInit(c, b) == IF ~Has(c, "zi") THEN Zeros(Mdim(c))
                ELSE IF Rk(c, "zi") = 1 THEN Val(c, "zi") ELSE Val(c, "zi")[b]
\* a scalar input drives the first state only
Drive(c, b, t) == IF Rk(c, "x") = 2 THEN E1(X(c, b, t), Mdim(c)) ELSE X(c, b, t)
SsrStep(c, b, t, h) == LET n == VecAdd(MatVec(StA(c, b, t), h), Drive(c, b, t)) IN [y |-> n, r |-> n]

Feat(c) == IF Rk(c, "x") = 3 THEN Sh(c, "x")[3] ELSE -1

\* Which reading of a shape applies: the first role in the list whose shape
\* fits.  Roles are written with the letters B (batch), N (time), M (state),
\* F (features of x) and K (any number of outputs); one letter per axis.
Fits(c, s, role) ==
  /\ Len(s) = Len(role)
  /\ \A i \in 1..Len(s) : CASE role[i] = "B" -> s[i] = c.B
                            [] role[i] = "N" -> s[i] = c.N
                            [] role[i] = "M" -> s[i] = Mdim(c)
                            [] role[i] = "F" -> s[i] = Feat(c)
                            [] role[i] = "1" -> s[i] = 1
                            [] OTHER -> TRUE
RECURSIVE FirstFit(_, _, _)
FirstFit(c, s, roles) == IF roles = <<>> THEN <<"bad">>
                         ELSE IF Fits(c, s, roles[1]) THEN roles[1] ELSE FirstFit(c, s, Tail(roles))
Scalar(c) == Rk(c, "x") = 2     \* x has no feature axis
BRoles(c) ==
  IF c.tv THEN IF Scalar(c) THEN << <<"M">>, <<"N","M">>, <<"B","M">>, <<"B","N","M">> >>
               ELSE << <<"M","F">>, <<"N","M","F">>, <<"B","M","F">>, <<"B","N","M","F">> >>
  ELSE IF Scalar(c) THEN << <<"M">>, <<"B","M">> >> ELSE << <<"M","F">>, <<"B","M","F">> >>
DRoles(c) ==
  IF c.tv THEN IF Scalar(c)
       THEN << <<>>, <<"1">>, <<"N">>, <<"B">>, <<"K">>, <<"B","N">>, <<"N","K">>, <<"B","K">>, <<"B","N","K">> >>
       ELSE << <<"F">>, <<>>, <<"1">>, <<"N","F">>, <<"B","F">>, <<"K","F">>, <<"B","N","F">>, <<"N","K","F">>,
               <<"B","K","F">>, <<"B","N","K","F">> >>
  ELSE IF Scalar(c) THEN << <<>>, <<"1">>, <<"B">>, <<"K">>, <<"B","K">> >>
       ELSE << <<"F">>, <<>>, <<"1">>, <<"B","F">>, <<"K","F">>, <<"B","K","F">> >>
CRoles(c) ==
  IF c.tv THEN << <<"M">>, <<"N","M">>, <<"B","M">>, <<"K","M">>, <<"B","N","M">>, <<"N","K","M">>, <<"B","K","M">>,
                  <<"B","N","K","M">> >>
  ELSE << <<"M">>, <<"B","M">>, <<"K","M">>, <<"B","K","M">> >>
BRole(c) == FirstFit(c, Sh(c, "Bm"), BRoles(c))
CRole(c) == FirstFit(c, Sh(c, "C"), CRoles(c))
DRole(c) == FirstFit(c, Sh(c, "D"), DRoles(c))
\* the slice of an argument for row b and step t: leading B and N axes removed
Slice(role, v, b, t) ==
  IF role = <<>> THEN v
  ELSE IF role[1] = "1" THEN v[1]
  ELSE IF role[1] = "B" THEN (IF Len(role) > 1 /\ role[2] = "N" THEN v[b][t] ELSE v[b])
  ELSE IF role[1] = "N" THEN v[t]
  ELSE v
\* what is left of the role after removing them
RestOf(role) ==
  IF role = <<>> \/ role[1] = "1" THEN <<>>
  ELSE IF role[1] = "B" THEN (IF Len(role) > 1 /\ role[2] = "N" THEN SubSeq(role, 3, Len(role)) ELSE Tail(role))
  ELSE IF role[1] = "N" THEN Tail(role)
  ELSE role
BTerm(c, b, t) ==
  IF ~Has(c, "Bm") THEN Drive(c, b, t)
  ELSE LET s == Slice(BRole(c), Val(c, "Bm"), b, t)
       IN IF Scalar(c) THEN VecScale(X(c, b, t), s) ELSE MatVec(s, X(c, b, t))
\* C h, a scalar or a vector
CVec(c) == IF Has(c, "C") THEN Len(RestOf(CRole(c))) = 2 ELSE ~("idx" \in DOMAIN c.opt)
\* a state component; negative numbers count from the end (0 is the first)
At(h, i) == IF i < 0 THEN h[Len(h) + i + 1] ELSE h[i + 1]
CTerm(c, b, t, h) ==
  IF ~Has(c, "C") THEN IF "idx" \in DOMAIN c.opt THEN At(h, c.opt.idx) ELSE h
  ELSE LET s == Slice(CRole(c), Val(c, "C"), b, t)
       IN IF CVec(c) THEN MatVec(s, h) ELSE Dot(s, h)
\* D x, a scalar or a vector
DVec(c) == LET r == RestOf(DRole(c)) IN IF Scalar(c) THEN Len(r) = 1 ELSE r = <<>> \/ Len(r) = 2
DTerm(c, b, t) ==
  LET s == Slice(DRole(c), Val(c, "D"), b, t)  r == RestOf(DRole(c))  x == X(c, b, t)
  IN IF Scalar(c) THEN (IF r = <<>> THEN Mul(s, x) ELSE VecScale(x, s))
     ELSE IF r = <<>> THEN VecScale(s, x)
     ELSE IF Len(r) = 1 THEN Dot(s, x) ELSE MatVec(s, x)
SsStep(c, b, t, h) ==
  LET ch == CTerm(c, b, t, h)
  IN [y |-> IF ~Has(c, "D") THEN ch
            ELSE IF CVec(c) THEN VecAdd(ch, DTerm(c, b, t)) ELSE Add(ch, DTerm(c, b, t)),
      r |-> VecAdd(MatVec(StA(c, b, t), h), BTerm(c, b, t))]
\* shapes the state space is specified for (ranks of the two terms agree)
SsShapeOK(c) ==
  /\ Has(c, "Bm") => BRole(c) # <<"bad">>
  /\ Has(c, "C") => CRole(c) # <<"bad">>
  /\ Has(c, "D") => DRole(c) # <<"bad">> /\ DVec(c) = CVec(c)

-----------------------------------------------------------------------------
(* Filters.  Coefficient k of row b at step t, zero beyond the order.       *)
Coef(c, n, b, t, i) ==     \* i counts from 1 within the stored coefficients
  LET v == Val(c, n)  r == Rk(c, n)
  IN IF i < 1 \/ i > LastDim(c, n) THEN Zero
     ELSE IF c.tv THEN (IF r = 2 THEN v[t][i] ELSE IF Sh(c, n)[1] = 1 THEN v[1][t][i] ELSE v[b][t][i])
     ELSE IF r = 1 THEN v[i] ELSE v[b][i]
bk(c, b, t, k) == Coef(c, "b", b, t, k + 1)
ak(c, b, t, k) == Coef(c, "a", b, t, k)
\* number of registers
Ord(c) ==
  CASE c.op = "lf" -> LET p == LastDim(c, "a")  q == LastDim(c, "b") - 1 IN IF p > q THEN p ELSE q
    [] c.op = "fir" -> LastDim(c, "b") - 1
    [] c.op = "ap" -> LastDim(c, "a")
    [] c.op = "comb" -> c.opt.delay
FZi(c, b) == IF ~Has(c, "zi") THEN Zeros(Ord(c))
             ELSE IF Rk(c, "zi") = 1 THEN Val(c, "zi") ELSE Val(c, "zi")[b]
RECURSIVE SumB(_, _, _, _, _)
SumB(c, b, t, q, k) == IF k > Len(q) THEN Zero ELSE Add(Mul(bk(c, b, t, k), q[k]), SumB(c, b, t, q, k + 1))
RECURSIVE SumA(_, _, _, _, _)
SumA(c, b, t, q, k) == IF k > Len(q) THEN Zero ELSE Add(Mul(ak(c, b, t, k), q[k]), SumA(c, b, t, q, k + 1))

\* direct form I: delay lines of inputs and of outputs
Df1Init(c, b) == [u |-> Zeros(Ord(c)), v |-> Zeros(Ord(c))]
Df1Step(c, b, t, q) ==
  LET x == X(c, b, t)
      y == Sub(Add(Mul(bk(c, b, t, 0), x), SumB(c, b, t, q.u, 1)), SumA(c, b, t, q.v, 1))
  IN [y |-> y, r |-> [u |-> Push(x, q.u), v |-> Push(y, q.v)]]
\* direct form II: one delay line of the internal signal w, newest first
Df2Step(c, b, t, q) ==
  LET w == Sub(X(c, b, t), SumA(c, b, t, q, 1))
  IN [y |-> Add(Mul(bk(c, b, t, 0), w), SumB(c, b, t, q, 1)), r |-> Push(w, q)]
\* transposed registers: register k takes register k+1 plus the current taps
Next(q, k) == IF k < Len(q) THEN q[k + 1] ELSE Zero
Head0(q) == IF Len(q) = 0 THEN Zero ELSE q[1]
Tdf2Step(c, b, t, q) ==
  LET x == X(c, b, t)  y == Add(Mul(bk(c, b, t, 0), x), Head0(q))
  IN [y |-> y, r |-> TLCEval([k \in 1..Len(q) |->
        Add(Next(q, k), Sub(Mul(bk(c, b, t, k), x), Mul(ak(c, b, t, k), y)))])]
\* transposed direct form I: transposed all-pole registers, then transposed FIR registers
Tdf1Init(c, b) == [u |-> Zeros(Ord(c)), v |-> Zeros(Ord(c))]
Tdf1Step(c, b, t, q) ==
  LET v == Add(X(c, b, t), Head0(q.v))
      y == Add(Mul(bk(c, b, t, 0), v), Head0(q.u))
  IN [y |-> y, r |-> [v |-> TLCEval([k \in 1..Len(q.v) |-> Sub(Next(q.v, k), Mul(ak(c, b, t, k), v))]),
                      u |-> TLCEval([k \in 1..Len(q.u) |-> Add(Next(q.u, k), Mul(bk(c, b, t, k), v))])]]
LfInit(c, b) == CASE c.opt.form = "df1" -> Df1Init(c, b) [] c.opt.form = "tdf1" -> Tdf1Init(c, b)
                  [] OTHER -> FZi(c, b)
LfStep(c, b, t, q) == CASE c.opt.form = "df1" -> Df1Step(c, b, t, q) [] c.opt.form = "df2" -> Df2Step(c, b, t, q)
                        [] c.opt.form = "tdf1" -> Tdf1Step(c, b, t, q) [] c.opt.form = "tdf2" -> Tdf2Step(c, b, t, q)

\* FIR; the transposed structure uses the conjugates of its coefficients
FirStep(c, b, t, q) ==
  LET x == X(c, b, t)
  IN IF ~c.opt.tr THEN [y |-> Add(Mul(bk(c, b, t, 0), x), SumB(c, b, t, q, 1)), r |-> Push(x, q)]
     ELSE [y |-> Add(Mul(Cj(bk(c, b, t, 0)), x), Head0(q)),
           r |-> TLCEval([k \in 1..Len(q) |-> Add(Next(q, k), Mul(Cj(bk(c, b, t, k)), x))])]
\* all-pole, likewise
ApStep(c, b, t, q) ==
  LET x == X(c, b, t)
  IN IF ~c.opt.tr THEN LET y == Sub(x, SumA(c, b, t, q, 1)) IN [y |-> y, r |-> Push(y, q)]
     ELSE LET y == Add(x, Head0(q))
          IN [y |-> y, r |-> TLCEval([k \in 1..Len(q) |-> Sub(Next(q, k), Mul(Cj(ak(c, b, t, k)), y))])]
\* comb filter: past outputs, newest first
CombA(c, b) == LET a == Val(c, "a")  s == Sh(c, "a") IN IF s = <<>> THEN a ELSE IF s[1] = 1 THEN a[1] ELSE a[b]
CombStep(c, b, t, q) == LET y == Sub(X(c, b, t), Mul(CombA(c, b), q[Len(q)])) IN [y |-> y, r |-> Push(y, q)]

-----------------------------------------------------------------------------
(* The machine of one row of a call *)
RowInit(c, b) ==
  CASE c.op = "rec" -> RecInit(c, b)
    [] c.op \in {"ssr", "ss"} -> StInit(c, b)
    [] c.op = "lf" -> LfInit(c, b)
    [] OTHER -> FZi(c, b)
RowStep(c, b, t, q) ==
  CASE c.op = "rec" -> RecStep(c, b, t, q)
    [] c.op = "ssr" -> SsrStep(c, b, t, q)
    [] c.op = "ss" -> SsStep(c, b, t, q)
    [] c.op = "lf" -> LfStep(c, b, t, q)
    [] c.op = "fir" -> FirStep(c, b, t, q)
    [] c.op = "ap" -> ApStep(c, b, t, q)
    [] c.op = "comb" -> CombStep(c, b, t, q)
\* the final state a call hands out: the registers themselves
HasFinal(c) == Has(c, "zi") /\ c.op \notin {"rec", "ssr"} /\ ~(c.op = "lf" /\ c.opt.form \in {"df1", "tdf1"})

(* Shape of the output sequence *)
OutTail(c) ==
  CASE c.op = "ssr" -> <<Mdim(c)>>
    [] c.op = "ss" -> IF ~CVec(c) THEN <<>>
                      ELSE IF ~Has(c, "C") THEN <<Mdim(c)>> ELSE <<Sh(c, "C")[Rk(c, "C") - 1]>>
    [] OTHER -> <<>>
FinalLen(c) == IF c.op = "ss" THEN Mdim(c) ELSE Ord(c)
=============================================================================
