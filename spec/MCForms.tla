------------------------------- MODULE MCForms -------------------------------
(***************************************************************************)
(* The filter structures and the state spaces they are computed with, side *)
(* by side on the same input, over a finite ring and from every initial    *)
(* state: coefficients fixed at the start (TV = FALSE) or chosen anew at   *)
(* every step (TV = TRUE).                                                 *)
(*  - from rest and with fixed coefficients all four structures agree      *)
(*    (FormsAgree);                                                        *)
(*  - the state spaces of _ssm_lfilter show the output and the registers   *)
(*    of the structure they stand for (Df2Real, Tdf2Real, Tdf1Real);       *)
(*  - the transposed FIR is the sum over delayed products diag_shift       *)
(*    computes (TransposedIsShift);                                        *)
(*  - df2 is all-pole then FIR over one delay line (Cascade).              *)
(***************************************************************************)
EXTENDS Rings
CONSTANTS Nb, Na, TV, Cplx,
          Track      \* which of the structures are followed (the others stand still)
M == INSTANCE Machines WITH Add <- CAdd, Mul <- CMul, Neg <- CNeg, Cj <- CCj, Zero <- CZero, One <- COne
Scal == IF Cplx THEN (0..(P - 1)) \X (0..(P - 1)) ELSE (0..(P - 1)) \X {0}
Ord == IF Nb - 1 > Na THEN Nb - 1 ELSE Na
Vecs(n) == [1..n -> Scal]

VARIABLES b, a,      \* coefficients of the next step
          rest,      \* did everything start at rest?
          q,         \* registers, by structure
          y          \* what did not agree at the last step
vars == <<b, a, rest, q, y>>

One1(form, x, b_, a_) ==     \* this step as a call
  [op |-> "lf", tv |-> FALSE, B |-> 1, N |-> 1, opt |-> [form |-> form, tr |-> form = "tr"],
   arg |-> [b |-> [s |-> <<Nb>>, v |-> b_], a |-> [s |-> <<Na>>, v |-> a_], x |-> [s |-> <<1, 1>>, v |-> <<<<x>>>>]]]
\* padded as _ssm_lfilter pads
bp(w) == [i \in 1..(Ord + 1) |-> IF i <= Nb THEN w[i] ELSE CZero]
ap(w) == [i \in 1..Ord |-> IF i <= Na THEN w[i] ELSE CZero]
Comp(w) == [i \in 1..Ord |-> IF i = 1 THEN [j \in 1..Ord |-> CNeg(ap(w)[j])] ELSE [j \in 1..Ord |-> IF j = i - 1 THEN COne ELSE CZero]]
Tr(A) == [i \in 1..Ord |-> [j \in 1..Ord |-> A[j][i]]]
BC(b_, a_) == TLCEval([i \in 1..Ord |-> CAdd(bp(b_)[i + 1], CNeg(CMul(b_[1], ap(a_)[i])))])    \* b[1:] - b0 a
Sp(i, n) == [j \in 1..n |-> IF j = i THEN COne ELSE CZero]

Rest0 == [u |-> M!Zeros(Ord), v |-> M!Zeros(Ord)]
On(n) == n \in Track
Vary == [s |-> "anew"]     \* coefficients that are not part of the state
Init ==
  /\ IF TV THEN b = Vary /\ a = Vary ELSE b \in Vecs(Nb) /\ a \in Vecs(Na)
  /\ \E z \in Vecs(Ord), p \in IF ~TV THEN {a} ELSE IF On("tdf1") THEN Vecs(Na) ELSE {<<>>} :
       /\ rest = (z = M!Zeros(Ord))
       /\ q = [df1 |-> Rest0, df2 |-> z, tdf1 |-> Rest0, tdf2 |-> z, ss2 |-> z, st2 |-> z, h1 |-> M!Zeros(Ord), pa |-> p,
               fr |-> M!Zeros(Nb - 1), hist |-> <<>>, line |-> z]
  /\ y = {}
Still(r) == [y |-> CZero, r |-> r]
Step(x, b_, a_) ==
  LET d1 == IF On("df1") THEN M!LfStep(One1("df1", x, b_, a_), 1, 1, q.df1) ELSE Still(q.df1)
      d2 == IF On("df2") THEN M!LfStep(One1("df2", x, b_, a_), 1, 1, q.df2) ELSE Still(q.df2)
      t1 == IF On("tdf1") THEN M!LfStep(One1("tdf1", x, b_, a_), 1, 1, q.tdf1) ELSE Still(q.tdf1)
      t2 == IF On("tdf2") THEN M!LfStep(One1("tdf2", x, b_, a_), 1, 1, q.tdf2) ELSE Still(q.tdf2)
      fr == IF On("fir") THEN M!FirStep(One1("tr", x, b_, a_), 1, 1, q.fr) ELSE Still(q.fr)
      bc == BC(b_, a_)
      \* df2: y = C h + D x, h' = A h + e1 x
      ys2 == IF On("df2") THEN CAdd(M!Dot(bc, q.ss2), CMul(b_[1], x)) ELSE CZero
      rs2 == IF On("df2") THEN M!VecAdd(M!MatVec(Comp(a_), q.ss2), M!E1(x, Ord)) ELSE q.ss2
      \* tdf2: y = h1 + D x, h' = A^T h + B x
      yst2 == IF On("tdf2") THEN CAdd(q.st2[1], CMul(b_[1], x)) ELSE CZero
      rst2 == IF On("tdf2") THEN M!VecAdd(M!MatVec(Tr(Comp(a_)), q.st2), M!VecScale(x, bc)) ELSE q.st2
      \* tdf1: the feedback matrix of the previous step
      h1 == IF On("tdf1") THEN M!VecAdd(M!MatVec(Tr(Comp(q.pa)), q.h1), M!E1(x, Ord)) ELSE q.h1
      \* diag_shift: products with the coefficients of the step they were made at
      hist == IF On("fir") THEN <<<<b_, x>>>> \o q.hist ELSE <<>>
      shf == IF ~On("fir") THEN CZero ELSE
             M!Dot([i \in 1..Nb |-> IF i <= Len(hist) THEN CCj(hist[i][1][i]) ELSE CZero],
                   [i \in 1..Nb |-> IF i <= Len(hist) THEN hist[i][2] ELSE CZero])
      \* all-pole, then FIR over the values the all-pole part produced
      w == CAdd(x, CNeg(M!Dot(a_, SubSeq(q.line, 1, Na))))
      ca == IF On("df2") THEN M!Dot(b_, <<w>> \o SubSeq(q.line, 1, Nb - 1)) ELSE CZero
  IN /\ y' = {p[1] : p \in {r \in {
                <<"forms", rest /\ ~TV => d1.y = d2.y /\ d1.y = t1.y /\ d1.y = t2.y>>,
                <<"df2", ys2 = d2.y>>, <<"tdf2", yst2 = t2.y>>, <<"cascade", ca = d2.y>>, <<"shift", fr.y = shf>>,
                <<"tdf1", On("tdf1") => h1[1] = CAdd(x, M!Head0(q.tdf1.v))>>} : ~r[2]}}
     /\ q' = [df1 |-> d1.r, df2 |-> d2.r, tdf1 |-> t1.r, tdf2 |-> t2.r, ss2 |-> rs2, st2 |-> rst2, h1 |-> h1,
              pa |-> IF On("tdf1") THEN a_ ELSE q.pa,
              fr |-> fr.r, hist |-> SubSeq(hist, 1, IF Len(hist) < Nb - 1 THEN Len(hist) ELSE Nb - 1),
              line |-> IF On("df2") THEN M!Push(w, q.line) ELSE q.line]
Next ==
  /\ \E x \in Scal : IF TV THEN \E b_ \in Vecs(Nb), a_ \in Vecs(Na) : Step(x, b_, a_) ELSE Step(x, b, a)
  /\ UNCHANGED <<b, a, rest>>
Spec == Init /\ [][Next]_vars
FormsAgree == "forms" \notin y
Df2Real == "df2" \notin y /\ q.ss2 = q.df2
Tdf2Real == "tdf2" \notin y /\ q.st2 = q.tdf2
Tdf1Real == "tdf1" \notin y
TransposedIsShift == "shift" \notin y
Cascade == "cascade" \notin y /\ q.line = q.df2
=============================================================================
