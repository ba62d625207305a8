------------------------------ MODULE Helpers ------------------------------
(***************************************************************************)
(* The helpers around the filters, as machines that show one index per     *)
(* transition: initial conditions, zero-phase filtering, spline            *)
(* interpolation, matrix and polynomial helpers, the Newton solver,        *)
(* polynomial algebra and partial fractions.                               *)
(*                                                                         *)
(* A call is a record c with op, B (rows: all leading axes flattened),     *)
(* arg (name -> [s |-> shape given, v |-> values by row]), opt, and        *)
(* HN(c) steps.  For every op:                                             *)
(*   HInit(c, b)          state of row b                                   *)
(*   HOk(c, b, k, st, o)  is the observation o right at step k?            *)
(*   HNext(c, b, k, st)   state after step k                               *)
(*   HFin(c, b, st, z)    is the remaining observation z right at the end? *)
(*   HShape(c)            shape of the result (<<-1>>: not looked at)      *)
(*   HIdx(c, k)           position of step k in the recorded sequence,     *)
(*                        0 when nothing is shown at this step             *)
(***************************************************************************)
EXTENDS Machines, FiniteSets, SequencesExt
CONSTANT Bad       \* what is recorded for a value that is not on the grid

OnGridV(o) == \A i \in 1..Len(o) : o[i] # Bad
A(c, n, b) == c.arg[n].v[b]
Front0(s, n) == SubSeq(s, 1, Len(s) - n)
MaxI(a, b) == IF a > b THEN a ELSE b
\* broadcasting two lists of leading axes
Bcast(s, u) ==
  LET n == MaxI(Len(s), Len(u))
      g(q, i) == IF i > n - Len(q) THEN q[i - (n - Len(q))] ELSE 1
  IN [i \in 1..n |-> IF g(s, i) = 1 THEN g(u, i) ELSE g(s, i)]
Lead(c, n, k) == Front0(c.arg[n].s, k)
Pow(a, n) == LET RECURSIVE P_(_) P_(i) == IF i = 0 THEN One ELSE Mul(a, P_(i - 1)) IN P_(n)
\* an integer of the ring
Num(n) == LET RECURSIVE N_(_) N_(i) == IF i = 0 THEN Zero ELSE IF i % 2 = 1 THEN Add(One, N_(i - 1)) ELSE LET h == N_(i \div 2) IN Add(h, h)
          IN IF n < 0 THEN Neg(N_(-n)) ELSE N_(n)
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE Zero]]
SumSeq(s) == FoldLeft(LAMBDA a, x : Add(a, x), Zero, s)
At0(s, i) == IF i < 1 \/ i > Len(s) THEN Zero ELSE s[i]

-----------------------------------------------------------------------------
(* companion(a): first row -a, then the identity shifted down *)
CompRow(c, b, k, st) == IF k = 1 THEN [i \in 1..Len(A(c, "a", b)) |-> Neg(A(c, "a", b)[i])] ELSE st
CompNext(c, b, k, st) == IF k = 1 THEN E1(One, Len(A(c, "a", b))) ELSE <<Zero>> \o SubSeq(st, 1, Len(st) - 1)

(* vandermonde(p): row M is all ones, each row above it multiplied by p;   *)
(* its columns are the eigenvectors of the companion matrix of the         *)
(* polynomial with roots p                                                 *)
VandInit(c, b) == [i \in 1..Len(A(c, "p", b)) |-> One]
VandNext(c, b, st) == TLCEval([i \in 1..Len(st) |-> Mul(st[i], A(c, "p", b)[i])])
\* coefficients (highest first, leading one) of the monic polynomial with the roots p
RECURSIVE FromRoots(_)
FromRoots(p) == IF p = <<>> THEN <<One>>
                ELSE LET q == FromRoots(Tail(p))
                     IN TLCEval([i \in 1..Len(q) + 1 |-> Sub(At0(q, i), Mul(p[1], At0(q, i - 1)))])
RECURSIVE Hor(_, _, _)
Hor(q, x, i) == IF i = 0 THEN Zero ELSE Add(Mul(Hor(q, x, i - 1), x), q[i])
PolyAt(q, x) == Hor(q, x, Len(q))
\* st is what is above the first row: x^M.  A p-column is an eigenvector iff
\* x^M = -(a1 x^(M-1) + ...), i.e. iff x is a root
VandFin(c, b, st) ==
  LET p == A(c, "p", b)  q == FromRoots(p)
  IN \A j \in 1..Len(p) : Add(st[j], PolyAt(<<Zero>> \o Tail(q), p[j])) = Zero

(* matrix_power_accumulate: A, A^2, ...; of the inverse for negative n *)
PowBase(c, b) == IF c.opt.n < 0 THEN A(c, "inv", b) ELSE A(c, "A", b)
PowInit(c, b) == Ident(Len(A(c, "A", b)))
PowStep(c, b, st) == IF c.opt.n = 0 THEN st ELSE MatMul(st, PowBase(c, b))
PowDom(c) == c.opt.n < 0 => \A b \in 1..c.B : MatMul(A(c, "A", b), A(c, "inv", b)) = Ident(Len(A(c, "A", b)))

(* matrices_cumdot: every prefix product in order *)
CumStep(c, b, k, st) == MatMul(st, A(c, "A", b)[k])

(* find_eigenvectors: column k belongs to eigenvalue k and has norm one    *)
(* (observed in units of 1/sqrt(norm2))                                    *)
EigOk(c, b, k, o) ==
  LET a == A(c, "A", b)
  IN /\ OnGridV(o)
     /\ MatVec(a, o) = VecScale(A(c, "L", b)[k], o)
     /\ Dot(o, [i \in 1..Len(o) |-> Cj(o[i])]) = Num(c.opt.norm2[b][k])

(* polydiv: long division, one quotient coefficient per step *)
DivLead(c, b) == A(c, "v", b)[1]
\* (the dividend is a multiple of a power of the leading coefficient; inv is its inverse in the ring)
DivQ(c, b, k, st) == Mul(A(c, "inv", b), st[k])
DivNext(c, b, k, st) ==
  LET d == DivQ(c, b, k, st)  v == A(c, "v", b)
  IN TLCEval([i \in 1..Len(st) |-> IF i >= k /\ i < k + Len(v) THEN Sub(st[i], Mul(d, v[i - k + 1])) ELSE st[i]])
DivSteps(c) == MaxI(0, c.arg["u"].s[Len(c.arg["u"].s)] - c.arg["v"].s[Len(c.arg["v"].s)] + 1)
DivDom(c) == \A b \in 1..c.B : Mul(DivLead(c, b), A(c, "inv", b)) = One
DivFin(c, b, st, z) ==      \* the remainder; everything above it is used up
  IF DivSteps(c) = 0 THEN z = st
  ELSE z = SubSeq(st, DivSteps(c) + 1, Len(st)) /\ \A i \in 1..DivSteps(c) : st[i] = Zero

(* diag_shift: column k is a delay of k + offset steps *)
ShT(c) == c.arg["coef"].s[Len(c.arg["coef"].s) - 1]
ShM(c) == c.arg["coef"].s[Len(c.arg["coef"].s)]
ShInit(c, b) == [k \in 1..ShM(c) |-> [i \in 1..(k + c.opt.offset) |-> Zero]]
ShNext(c, b, t, st) == [k \in 1..ShM(c) |-> Push(IF t <= ShT(c) THEN A(c, "coef", b)[t][k] ELSE Zero, st[k])]
\* after the push the value of step t is first in the line, the one of step t-k-offset is last
ShRow(c, b, t, st) == LET n == ShNext(c, b, t, st) IN [k \in 1..ShM(c) |-> n[k][Len(n[k])]]

-----------------------------------------------------------------------------
(* lfilter_zi.  The registers are observed in units of 1/s, s = a(1).  The *)
(* filter started from them with constant input s shows s G for ever and   *)
(* keeps its registers.                                                    *)
LfCase(c, b, form, xs) ==  \* one row as a call of the filter machine
  [op |-> "lf", tv |-> FALSE, B |-> 1, N |-> Len(xs), opt |-> [form |-> form],
   arg |-> [b |-> [s |-> <<Len(A(c, "b", b))>>, v |-> A(c, "b", b)],
            a |-> [s |-> <<Len(A(c, "a", b))>>, v |-> A(c, "a", b)],
            x |-> [s |-> <<1, Len(xs)>>, v |-> <<xs>>]]]
AtOne(c, b) == Add(One, SumSeq(A(c, "a", b)))
Gain(c, b) == SumSeq(A(c, "b", b))
SteadyOk(c, b, k, o) ==
  LET f == LfCase(c, b, c.opt.form, <<AtOne(c, b)>>)
      r == LfStep(f, 1, 1, o)
  IN /\ OnGridV(o)
     /\ Len(o) = Ord(f)
     /\ r.r = o
     /\ r.y = Gain(c, b)

(* lfiltic: the registers left behind by the past: from them the           *)
(* transposed structure goes on exactly like the difference equation does  *)
(* with those past inputs and outputs                                      *)
HistPad(h, n) == [i \in 1..n |-> At0(h, i)]
ContInit(c, b, o) ==
  LET n == Ord(LfCase(c, b, "df1", <<>>))
  IN [d |-> [u |-> HistPad(IF "x" \in DOMAIN c.arg THEN A(c, "x", b) ELSE <<>>, n), v |-> HistPad(A(c, "y", b), n)], q |-> o]
RECURSIVE Lockstep(_, _, _, _)
Lockstep(c, b, k, st) ==
  IF k > Len(A(c, "go", b)) THEN TRUE
  ELSE LET f == LfCase(c, b, "df1", A(c, "go", b))
           g == LfCase(c, b, "tdf2", A(c, "go", b))
           p == Df1Step(f, 1, k, st.d)
           q == Tdf2Step(g, 1, k, st.q)
       IN p.y = q.y /\ Lockstep(c, b, k + 1, [d |-> p.r, q |-> q.r])
ContOk(c, b, o) == OnGridV(o) /\ Len(o) = Ord(LfCase(c, b, "df1", <<>>)) /\ Lockstep(c, b, 1, ContInit(c, b, o))

-----------------------------------------------------------------------------
(* filtfilt, in units of 1/s^2: extend, filter from the steady state of    *)
(* the first value, turn round, again, turn round, trim.                   *)
\* extension of a row by e values on each side; i counts from 1 - e to n + e
Ext(x, i, mode) ==
  LET n == Len(x)
  IN IF i >= 1 /\ i <= n THEN x[i]
     ELSE CASE mode = "constant" -> Zero
            [] mode = "replicate" -> IF i < 1 THEN x[1] ELSE x[n]
            [] mode = "reflect" -> IF i < 1 THEN x[2 - i] ELSE x[2 * n - i]
            [] mode = "circular" -> IF i < 1 THEN x[i + n] ELSE x[i - n]
FfEdge(c) ==
  IF c.opt.mode = "none" THEN 0
  ELSE IF c.opt.padlen >= 0 THEN c.opt.padlen
  ELSE 3 * MaxI(c.arg["b"].s[Len(c.arg["b"].s)], c.arg["a"].s[Len(c.arg["a"].s)] + 1)
FfLen(c) == c.opt.n + 2 * FfEdge(c)
\* steady registers for input s (closed form; SteadyOk says what they are)
Steady(c, b, form) ==
  LET n == Ord(LfCase(c, b, form, <<>>))  s == AtOne(c, b)  g == Gain(c, b)
      tail(k) == SumSeq([j \in 1..(n - k + 1) |-> Sub(Mul(At0(A(c, "b", b), k + j), s), Mul(At0(A(c, "a", b), k + j - 1), g))])
  IN IF form = "df2" THEN [k \in 1..n |-> One] ELSE TLCEval([k \in 1..n |-> tail(k)])
FfSig(c, b) == TLCEval([i \in 1..FfLen(c) |-> Ext(A(c, "x", b), i - FfEdge(c), IF c.opt.mode = "none" THEN "replicate" ELSE c.opt.mode)])
\* the forms without initial state of their own do the same from the same steady state
FfForm(c) == CASE c.opt.form = "df1" -> "df2" [] c.opt.form = "tdf1" -> "tdf2" [] OTHER -> c.opt.form
FfStart(c, b, sig) ==
  [sig |-> sig, out |-> <<>>, q |-> VecScale(sig[1], Steady(c, b, FfForm(c)))]
FfInit(c, b) == FfStart(c, b, FfSig(c, b))
FfStep(c, b, k, st) ==
  LET L == FfLen(c)  j == IF k <= L THEN k ELSE k - L
      f == LfCase(c, b, FfForm(c), <<Mul(AtOne(c, b), st.sig[j])>>)
      r == LfStep(f, 1, 1, st.q)
  IN [y |-> r.y, r |-> [sig |-> st.sig, out |-> <<r.y>> \o st.out, q |-> r.r]]
\* when the first pass is over, what it produced (newest first, i.e. turned round) is filtered again
FfNext(c, b, k, st) == LET r == FfStep(c, b, k, st).r IN IF k = FfLen(c) THEN FfStart(c, b, r.out) ELSE r
FfIdx(c, k) == LET L == FfLen(c)  j == 2 * L - k + 1 - FfEdge(c) IN IF k <= L \/ j < 1 \/ j > c.opt.n THEN 0 ELSE j

-----------------------------------------------------------------------------
(* cubic_spline.  arg c: the B-spline coefficients (times 1/6 they stay    *)
(* integers), x: the samples; output j in units of 1/m^3.                  *)
SpC(c, b, i) ==
  LET q == A(c, "c", b)  n == Len(q)
  IN IF i >= 1 /\ i <= n THEN q[i]
     ELSE IF c.opt.scipy THEN (IF i < 1 THEN q[1 - i] ELSE q[2 * n + 1 - i])
     ELSE (IF i < 1 THEN q[2 - i] ELSE q[2 * n - i])
\* six times the cubic B-spline at distance u/m, times m^3
Ker6(u, m) ==
  LET w == IF u < 0 THEN -u ELSE u
  IN IF w <= m THEN 4 * m * m * m - 6 * w * w * m + 3 * w * w * w
     ELSE IF w < 2 * m THEN (2 * m - w) * (2 * m - w) * (2 * m - w) ELSE 0
\* the state is the interval and the position in it
SpInit(c, b) == [i |-> 1, u |-> 0]
SpY(c, b, st) ==
  SumSeq([d \in 1..4 |-> Mul(SpC(c, b, st.i + d - 2), Num(Ker6(st.u - (d - 2) * c.opt.m, c.opt.m)))])
SpNext(c, b, st) == IF st.u + 1 = c.opt.m THEN [i |-> st.i + 1, u |-> 0] ELSE [st EXCEPT !.u = @ + 1]
\* the samples are what the coefficients say (c is in units of 1/6)
SpDom(c) == \A b \in 1..c.B : \A i \in 1..Len(A(c, "x", b)) :
   A(c, "x", b)[i] = Add(SpC(c, b, i - 1), Add(Mul(Num(4), SpC(c, b, i)), SpC(c, b, i + 1)))

-----------------------------------------------------------------------------
(* Newton solver.  f is a list (one entry per state component) of          *)
(* monomials [c |-> coefficient, e |-> exponents of (y, x)].               *)
NwF(c, b, y, x) ==
  LET z == y \o x
      mono(m) == Mul(m.c, FoldLeft(LAMBDA a, i : Mul(a, Pow(z[i], m.e[i])), One, [i \in 1..Len(z) |-> i]))
  IN TLCEval([i \in 1..Len(y) |-> SumSeq([j \in 1..Len(c.opt.f[i]) |-> mono(c.opt.f[i][j])])])
NwInit(c, b) == A(c, "init", b)
NwNext(c, b, k, st) == NwF(c, b, st, A(c, "x", b)[k])
\* values that are determined: one per iteration; all of them when f is affine
\* in the state or when the solver stopped before its last iteration
NwAffine(c) == LET d == Len(c.opt.f) IN
  \A i \in 1..d : \A j \in 1..Len(c.opt.f[i]) : FoldLeft(LAMBDA a, q : a + q, 0, SubSeq(c.opt.f[i][j].e, 1, d)) <= 1
NwKnown(c, o) == IF NwAffine(c) \/ o.iters < c.opt.max_iter THEN c.opt.L ELSE o.iters
NwCount(c, o) == o.iters >= 1 /\ o.iters <= c.opt.max_iter

-----------------------------------------------------------------------------
(* Polynomial algebra and partial fractions (philtorch.prototype).         *)
(* Polynomials are coefficient sequences, highest power first.             *)
RECURSIVE Trim(_)
Trim(u) == IF Len(u) > 1 /\ u[1] = Zero THEN Trim(Tail(u)) ELSE u
PolyMul(u, v) == TLCEval([k \in 1..(Len(u) + Len(v) - 1) |-> SumSeq([i \in 1..Len(u) |-> Mul(u[i], At0(v, k - i + 1))])])
PadL(u, n) == [i \in 1..n |-> At0(u, i - (n - Len(u)))]          \* the same polynomial, n coefficients
PolyAdd(u, v) == LET n == MaxI(Len(u), Len(v)) IN VecAdd(PadL(u, n), PadL(v, n))
PolyNeg(u) == [i \in 1..Len(u) |-> Neg(u[i])]
SamePoly(u, v) == LET n == MaxI(Len(u), Len(v)) IN PadL(u, n) = PadL(v, n)
Der1(u) == LET n == Len(u) IN IF n = 1 THEN <<Zero>> ELSE [i \in 1..(n - 1) |-> Mul(Num(n - i), u[i])]
RECURSIVE Der(_, _)
Der(u, m) == IF m = 0 THEN u ELSE Der(Der1(u), m - 1)
\* value by value (polynomials with products below: the product comes factor by factor)
PolyOf(c, f) ==
  CASE f = "mul" -> FoldLeft(LAMBDA u, v : PolyMul(u, v), <<One>>, c.opt.polys)
    [] f = "add" -> PolyAdd(c.opt.polys[1], c.opt.polys[2])
    [] f = "sub" -> PolyAdd(c.opt.polys[1], PolyNeg(c.opt.polys[2]))
    [] f = "der" -> Der(c.opt.polys[1], c.opt.m)
    [] f = "trim" -> c.opt.polys[1]
\* the result is this polynomial; products, derivatives and trimmed ones without
\* leading zeros (of trimmed arguments), sums as long as the longer argument
PalgOk(c, o) ==
  /\ OnGridV(o)
  /\ SamePoly(o, PolyOf(c, c.opt.fn))
  /\ CASE c.opt.fn \in {"add", "sub"} -> Len(o) = MaxI(Len(c.opt.polys[1]), Len(c.opt.polys[2]))
       [] c.opt.fn = "trim" -> Len(o) = Len(Trim(c.opt.polys[1]))
       [] c.opt.fn = "mul" -> Len(c.opt.polys) = 1 \/ \E i \in 1..Len(c.opt.polys) : Trim(c.opt.polys[i]) = <<Zero>>
                                \/ Len(o) = Len(Trim(PolyOf(c, "mul")))
       [] OTHER -> TRUE
\* quotient and remainder of trimmed polynomials: u = q v + r, r shorter than v
Qr(c, o) ==
  LET u == Trim(c.opt.polys[1])  v == Trim(c.opt.polys[2])
  IN /\ OnGridV(o.q) /\ OnGridV(o.r)
     /\ SamePoly(u, PolyAdd(PolyMul(o.q, v), o.r))
     /\ Len(o.q) = MaxI(1, Len(u) - Len(v) + 1)
     /\ IF Len(v) = 1 THEN Trim(o.r) = <<Zero>> ELSE Len(Trim(o.r)) < Len(v)
\* all roots with their multiplicities
RootsOk(c, o) ==
  LET p == Trim(c.opt.polys[1])
  IN /\ OnGridV(o)
     /\ IF p = <<Zero>> THEN o = <<>> ELSE VecScale(p[1], FromRoots(o)) = p
\* partial fractions: term i is r[i] over the power pw of its pole, pw counting
\* the entries of the same pole up to this one.  Residues are observed in units
\* of 1/d (inv is the inverse of d in the ring).
Power(p, i) == Cardinality({j \in 1..i : p[j] = p[i]})
RECURSIVE Without(_, _, _)
Without(p, z, n) == IF n = 0 \/ p = <<>> THEN p
                    ELSE IF p[1] = z THEN Without(Tail(p), z, n - 1) ELSE <<p[1]>> \o Without(Tail(p), z, n)
PfTerm(c, o, i) == VecScale(Mul(Mul(o.r[i], c.opt.inv), c.opt.polys[2][1]), FromRoots(Without(o.p, o.p[i], Power(o.p, i))))
\* the same for both variables: descending powers of s are aligned at the end,
\* ascending powers of 1/z (where 1 - p/z takes the place of s - p) at the start
Rev(u) == [i \in 1..Len(u) |-> u[Len(u) + 1 - i]]
PfOk(c, o) ==
  LET b == c.opt.polys[1]  a == c.opt.polys[2]  z == c.opt.fn = "z"
      k == IF o.k = <<>> THEN <<Zero>> ELSE o.k
      al(u) == IF z THEN Rev(u) ELSE u
      num == FoldLeft(LAMBDA s, i : PolyAdd(s, al(PfTerm(c, o, i))), <<Zero>>, [i \in 1..Len(o.p) |-> i])
  IN /\ OnGridV(o.r) /\ OnGridV(o.p) /\ OnGridV(o.k)
     /\ Len(o.r) = Len(o.p)
     /\ VecScale(a[1], FromRoots(o.p)) = a
     /\ \A i \in 1..(Len(o.p) - 1) : \A j \in (i + 1)..Len(o.p) : o.p[i] = o.p[j] => o.p[i] = o.p[i + 1]
     /\ SamePoly(al(b), PolyAdd(num, PolyMul(al(k), al(a))))
     /\ Len(o.k) <= MaxI(0, Len(b) - Len(a) + 1)
PfDom(c) == Mul(c.opt.d, c.opt.inv) = One

-----------------------------------------------------------------------------
HN(c) ==
  CASE c.op \in {"companion"} -> c.arg["a"].s[Len(c.arg["a"].s)]
    [] c.op = "vander" -> c.arg["p"].s[Len(c.arg["p"].s)]
    [] c.op = "powers" -> MaxI(1, IF c.opt.n < 0 THEN -c.opt.n ELSE c.opt.n)
    [] c.op = "cumdot" -> c.arg["A"].s[Len(c.arg["A"].s) - 2]
    [] c.op = "eigvec" -> c.arg["L"].s[Len(c.arg["L"].s)]
    [] c.op = "polydiv" -> DivSteps(c)
    [] c.op = "shift" -> IF c.opt.discard THEN ShT(c) ELSE ShT(c) + ShM(c) + c.opt.offset - 1
    [] c.op \in {"steady", "continue", "palg", "qr", "roots", "pfe"} -> 1
    [] c.op = "polyval" -> Len(c.opt.x)
    [] c.op = "filtfilt" -> 2 * FfLen(c)
    [] c.op = "spline" -> (c.arg["x"].s[2] - 1) * c.opt.m + 1
    [] c.op = "newton" -> c.opt.L
HIdx(c, k) == CASE c.op = "filtfilt" -> FfIdx(c, k)
                [] c.op = "vander" -> HN(c) + 1 - k
                [] OTHER -> k
HInit(c, b) ==
  CASE c.op = "vander" -> VandInit(c, b)
    [] c.op = "powers" -> PowInit(c, b)
    [] c.op = "cumdot" -> Ident(Len(A(c, "A", b)[1]))
    [] c.op = "polydiv" -> A(c, "u", b)
    [] c.op = "shift" -> ShInit(c, b)
    [] c.op = "filtfilt" -> FfInit(c, b)
    [] c.op = "spline" -> SpInit(c, b)
    [] c.op = "newton" -> NwInit(c, b)
    [] OTHER -> <<>>
HOk(c, b, k, st, o) ==
  CASE c.op = "companion" -> o = CompRow(c, b, k, st)
    [] c.op = "vander" -> o = st
    [] c.op = "powers" -> o = PowStep(c, b, st)
    [] c.op = "cumdot" -> o = CumStep(c, b, k, st)
    [] c.op = "eigvec" -> EigOk(c, b, k, o)
    [] c.op = "polydiv" -> o = DivQ(c, b, k, st)
    [] c.op = "shift" -> o = ShRow(c, b, k, st)
    [] c.op = "steady" -> SteadyOk(c, b, k, o)
    [] c.op = "continue" -> ContOk(c, b, o)
    [] c.op = "filtfilt" -> o = FfStep(c, b, k, st).y
    [] c.op = "spline" -> o = SpY(c, b, st)
    [] c.op = "newton" -> o = NwNext(c, b, k, st)
    [] c.op = "palg" -> PalgOk(c, o)
    [] c.op = "qr" -> Qr(c, o)
    [] c.op = "roots" -> RootsOk(c, o)
    [] c.op = "polyval" -> o = PolyAt(c.opt.polys[1], c.opt.x[k])
    [] c.op = "pfe" -> PfOk(c, o)
HNext(c, b, k, st) ==
  CASE c.op = "companion" -> CompNext(c, b, k, st)
    [] c.op = "vander" -> VandNext(c, b, st)
    [] c.op = "powers" -> PowStep(c, b, st)
    [] c.op = "cumdot" -> CumStep(c, b, k, st)
    [] c.op = "polydiv" -> DivNext(c, b, k, st)
    [] c.op = "shift" -> ShNext(c, b, k, st)
    [] c.op = "filtfilt" -> FfNext(c, b, k, st)
    [] c.op = "spline" -> SpNext(c, b, st)
    [] c.op = "newton" -> NwNext(c, b, k, st)
    [] OTHER -> st
\* has the call a second result, looked at when the sequence is over
HTwo(c) == c.op = "polydiv"
HFin(c, b, st, z) == CASE c.op = "polydiv" -> DivFin(c, b, st, z) [] OTHER -> TRUE
HDone(c, b, st) == c.op = "vander" => VandFin(c, b, st)
\* how many of the steps an observation has to get right
HKnown(c, o) == IF c.op = "newton" THEN NwKnown(c, o) ELSE HN(c)
HCount(c, o) == c.op = "newton" => NwCount(c, o)
HShape(c) ==
  CASE c.op = "companion" -> LET m == HN(c) IN Lead(c, "a", 1) \o <<m, m>>
    [] c.op = "vander" -> LET m == HN(c) IN Lead(c, "p", 1) \o <<m, m>>
    [] c.op = "powers" -> Lead(c, "A", 2) \o <<HN(c)>> \o SubSeq(c.arg["A"].s, Len(c.arg["A"].s) - 1, Len(c.arg["A"].s))
    [] c.op = "cumdot" -> c.arg["A"].s
    [] c.op = "eigvec" -> Bcast(Lead(c, "A", 2), Lead(c, "L", 1)) \o <<HN(c), HN(c)>>
    [] c.op = "polydiv" -> Bcast(Lead(c, "u", 1), Lead(c, "v", 1)) \o <<HN(c)>>
    [] c.op = "shift" -> Lead(c, "coef", 2) \o <<HN(c), ShM(c)>>
    [] c.op = "steady" -> LET n == IF c.opt.form = "df2" /\ "nob" \in DOMAIN c.opt THEN c.arg["a"].s[Len(c.arg["a"].s)]
                                  ELSE MaxI(c.arg["a"].s[Len(c.arg["a"].s)], c.arg["b"].s[Len(c.arg["b"].s)] - 1)
                          IN (IF c.opt.form = "df2" THEN Lead(c, "a", 1) ELSE Bcast(Lead(c, "a", 1), Lead(c, "b", 1))) \o <<n>>
    [] c.op = "filtfilt" -> c.arg["x"].s
    [] c.op = "spline" -> <<c.arg["x"].s[1], HN(c)>>
    [] c.op = "newton" -> <<c.arg["init"].s[1], c.opt.L, c.arg["init"].s[2]>>
    [] c.op = "polyval" -> c.opt.xs
    [] OTHER -> <<-1>>
HShape2(c) == CASE c.op = "polydiv" -> Bcast(Lead(c, "u", 1), Lead(c, "v", 1)) \o
                     <<IF HN(c) = 0 THEN c.arg["u"].s[Len(c.arg["u"].s)] ELSE c.arg["v"].s[Len(c.arg["v"].s)] - 1>>
                [] OTHER -> <<>>
HDom(c) == CASE c.op = "powers" -> PowDom(c) [] c.op = "polydiv" -> DivDom(c) [] c.op = "spline" -> SpDom(c)
             [] c.op = "pfe" -> PfDom(c)
             [] c.op \in {"steady", "filtfilt"} -> \A b \in 1..c.B : AtOne(c, b) # Zero
             [] OTHER -> TRUE
=============================================================================
