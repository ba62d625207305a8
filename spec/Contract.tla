------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* Which arguments a call takes, and what it then returns: shape, stride   *)
(* and dtype.  Nothing about values.                                       *)
(*                                                                         *)
(* A call is a record c with op and the shapes sh[name]; raw operators     *)
(* also have the dtypes dt[name].  Verdict(c) is                           *)
(*   [k |-> "raise"]            the call has to be refused                 *)
(*   [k |-> "take", s, f]       it has to be taken: shape of the output    *)
(*                              and of the final state (<<-1>>: none)      *)
(*   [k |-> "lenient"]          sizes that broadcast although no role is   *)
(*                              that short: refused, or a result that      *)
(*                              still has the rows and steps of x          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Last(s, n) == s[Len(s) - n + 1]
NoFinal == <<-1>>
Raise == [k |-> "raise", s |-> <<>>, f |-> NoFinal]
Take(s, f) == [k |-> "take", s |-> s, f |-> f]
Lenient == [k |-> "lenient", s |-> <<>>, f |-> NoFinal]

-----------------------------------------------------------------------------
(* The compiled operators: A, zi, x *)
RawOps == {"lti_recur", "lti_recurN", "lti_recur2", "recurN", "recur2"}
RawOK(op, A, zi, x) ==
  IF op = "lti_recur"
  THEN /\ Len(x) = 2 /\ Len(zi) = 1 /\ Len(A) <= 1
       /\ zi[1] = x[1]
       /\ Len(A) = 1 => A[1] \in {1, x[1]}
  ELSE LET tv == op \in {"recurN", "recur2"}
           r == IF tv THEN 3 ELSE 2
       IN /\ Len(x) = 3 /\ Len(zi) = 2 /\ Len(A) \in {r, r + 1}
          /\ Last(A, 1) = x[3] /\ Last(A, 2) = x[3]
          /\ op \in {"lti_recur2", "recur2"} => x[3] = 2
          /\ zi = <<x[1], x[3]>>
          /\ tv => Last(A, 3) = x[2]
          /\ Len(A) = r + 1 => A[1] = x[1]
Raw(c) ==
  IF c.dt.A = c.dt.x /\ c.dt.zi = c.dt.x /\ RawOK(c.op, c.sh.A, c.sh.zi, c.sh.x)
  THEN Take(c.sh.x, NoFinal) ELSE Raise
\* row-major strides; what they are for axes of size 1 (or empty results) says nothing
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
RowMajor(s) == [i \in 1..Len(s) |-> Prod(SubSeq(s, i + 1, Len(s)))]
StrideOK(s, st) == \/ Prod(s) = 0
                   \/ \A i \in 1..Len(s) : s[i] = 1 \/ st[i] = RowMajor(s)[i]

(* What the kernels touch: the loops of the operators over rows b, steps t *)
(* and components i, j (counted from 0), as positions in contiguous memory.*)
\* TRUE when every access of an accepted call stays inside its argument
InBounds(op, A, zi, x) ==
  IF op = "lti_recur"
  THEN \A b \in 0..(x[1] - 1) :
         /\ (IF Len(A) = 1 /\ A[1] # 1 THEN b ELSE 0) < Prod(A)
         /\ b < Prod(zi)
         /\ \A t \in 0..(x[2] - 1) : b * x[2] + t < Prod(x)
  ELSE LET B == x[1]  N == x[2]  M == x[3]
           tv == op \in {"recurN", "recur2"}
           perRow == Len(A) = IF tv THEN 4 ELSE 3
           W == IF op \in {"recur2", "lti_recur2"} THEN 2 ELSE M
       IN \A b \in 0..(B - 1), t \in 0..(N - 1), i \in 0..(W - 1), j \in 0..(W - 1) :
            /\ (IF perRow THEN (IF tv THEN b * N * W * W ELSE b * W * W) ELSE 0)
                 + (IF tv THEN t * W * W ELSE 0) + i * W + j < Prod(A)
            /\ b * W + i < Prod(zi)
            /\ (b * N + t) * W + i < Prod(x)

-----------------------------------------------------------------------------
(* The public recursions and state spaces.  Names: a zi x | A zi x | A x Bm C D zi *)
Has(c, n) == n \in DOMAIN c.sh
Ix(c) == c.ix
RecV(c) ==
  LET x == c.sh.x IN
  IF Len(x) # 2 THEN Raise
  ELSE LET B == x[1]  N == x[2]
           aok == IF c.tv THEN c.sh.a \in {<<N>>, <<B, N>>} ELSE c.sh.a \in {<<>>, <<1>>, <<B>>}
           loose == c.tv /\ c.sh.a = <<1, N>>
           zok == c.sh.zi \in {<<>>, <<1>>, <<B>>}
       IN IF ~zok \/ ~(aok \/ loose) THEN Raise
          ELSE IF aok THEN Take(<<B, N>>, NoFinal) ELSE Lenient

AOK(c) ==
  LET A == c.sh.A  x == c.sh.x IN
  /\ Len(x) \in {2, 3}
  /\ Len(A) >= 2 /\ Last(A, 1) = Last(A, 2)
  /\ LET M == Last(A, 1)
     IN IF c.tv THEN A \in {<<x[2], M, M>>, <<x[1], x[2], M, M>>} ELSE A \in {<<M, M>>, <<x[1], M, M>>}
M_(c) == Last(c.sh.A, 1)
SsrV(c) ==
  LET x == c.sh.x IN
  IF ~AOK(c) THEN Raise
  ELSE IF Len(x) = 3 /\ x[3] # M_(c) THEN Raise
  ELSE IF c.sh.zi # <<x[1], M_(c)>> THEN Raise
  ELSE Take(IF Ix(c) THEN <<x[1], x[2]>> ELSE <<x[1], x[2], M_(c)>>, NoFinal)

\* roles as strings of axes; the first that fits is the one that counts
Sc(c) == Len(c.sh.x) = 2
Dim(c, l) == CASE l = "B" -> c.sh.x[1] [] l = "N" -> c.sh.x[2] [] l = "M" -> M_(c)
               [] l = "F" -> (IF Sc(c) THEN -1 ELSE c.sh.x[3]) [] OTHER -> 1
FitsR(c, s, r) == Len(s) = Len(r) /\ \A i \in 1..Len(s) : r[i] = "K" \/ s[i] = Dim(c, r[i])
LooseR(c, s, r) == Len(s) = Len(r) /\ \A i \in 1..Len(s) : r[i] = "K" \/ s[i] = Dim(c, r[i]) \/ s[i] = 1 \/ Dim(c, r[i]) = 1
Roles(tv, sc) ==
  [Bm |-> IF tv THEN IF sc THEN << <<"M">>, <<"N","M">>, <<"B","M">>, <<"B","N","M">> >>
                     ELSE << <<"M","F">>, <<"N","M","F">>, <<"B","M","F">>, <<"B","N","M","F">> >>
          ELSE IF sc THEN << <<"M">>, <<"B","M">> >> ELSE << <<"M","F">>, <<"B","M","F">> >>,
   C |-> IF tv THEN << <<"M">>, <<"N","M">>, <<"B","M">>, <<"K","M">>, <<"B","N","M">>, <<"N","K","M">>, <<"B","K","M">>,
                       <<"B","N","K","M">> >>
         ELSE << <<"M">>, <<"B","M">>, <<"K","M">>, <<"B","K","M">> >>,
   D |-> IF tv THEN IF sc
              THEN << <<>>, <<"1">>, <<"N">>, <<"B">>, <<"K">>, <<"B","N">>, <<"N","K">>, <<"B","K">>, <<"B","N","K">> >>
              ELSE << <<"F">>, <<>>, <<"1">>, <<"N","F">>, <<"B","F">>, <<"K","F">>, <<"B","N","F">>, <<"N","K","F">>,
                      <<"B","K","F">>, <<"B","N","K","F">> >>
         ELSE IF sc THEN << <<>>, <<"1">>, <<"B">>, <<"K">>, <<"B","K">> >>
         ELSE << <<"F">>, <<>>, <<"1">>, <<"B","F">>, <<"K","F">>, <<"B","K","F">> >>]
RECURSIVE First(_, _, _)
First(c, s, rs) == IF rs = <<>> THEN <<"none">> ELSE IF FitsR(c, s, rs[1]) THEN rs[1] ELSE First(c, s, Tail(rs))
Role(c, n) == First(c, c.sh[n], Roles(c.tv, Sc(c))[n])
AnyLoose(c, n) == LET rs == Roles(c.tv, Sc(c))[n] IN \E i \in 1..Len(rs) : LooseR(c, c.sh[n], rs[i])
Rest(r) == IF r = <<>> \/ r[1] = "1" THEN <<>>
           ELSE IF r[1] = "B" THEN (IF Len(r) > 1 /\ r[2] = "N" THEN SubSeq(r, 3, Len(r)) ELSE Tail(r))
           ELSE IF r[1] = "N" THEN Tail(r) ELSE r
SsV(c) ==
  LET x == c.sh.x IN
  IF ~AOK(c) THEN (IF Len(c.sh.A) = (IF c.tv THEN 4 ELSE 3) /\ c.sh.A[1] = 1 /\ AOK([c EXCEPT !.sh.A = Tail(@)]) THEN Lenient ELSE Raise)
  ELSE
  LET B == x[1]  N == x[2]  M == M_(c)
      names == {"Bm", "C", "D"} \cap DOMAIN c.sh
      zok == Has(c, "zi") => c.sh.zi \in {<<M>>, <<B, M>>}
      drive == Has(c, "Bm") \/ Sc(c) \/ x[3] = M
      fin == IF Has(c, "zi") THEN <<B, M>> ELSE NoFinal
  IN IF ~zok \/ ~drive \/ (Has(c, "C") /\ Ix(c)) THEN Raise
     ELSE IF \E n \in names : ~AnyLoose(c, n) THEN Raise
     ELSE IF \E n \in names : Role(c, n) = <<"none">> THEN Lenient
     ELSE LET cr == IF Has(c, "C") THEN Role(c, "C") ELSE <<>>
              cv == IF Has(c, "C") THEN Len(Rest(cr)) = 2 ELSE ~Ix(c)
              w == IF Has(c, "C") THEN (IF cv THEN Last(c.sh.C, 2) ELSE 0) ELSE M
              tail == IF cv THEN <<w>> ELSE <<>>
          IN IF ~Has(c, "D") THEN Take(<<B, N>> \o tail, fin)
             ELSE LET r == Rest(Role(c, "D"))
                      dv == IF Sc(c) THEN Len(r) = 1 ELSE Len(r) \in {0, 2}
                      dw == IF Sc(c) THEN Last(c.sh.D, 1) ELSE IF r = <<>> THEN x[3] ELSE Last(c.sh.D, 2)
                  IN IF dv # cv THEN Raise
                     ELSE IF ~dv \/ dw = w THEN Take(<<B, N>> \o tail, fin)
                     ELSE IF dw = 1 \/ w = 1 THEN Lenient ELSE Raise

-----------------------------------------------------------------------------
(* The public filters.  Names: b a x zi; comb has a delay d, lf a form.    *)
MaxOf(S) == CHOOSE m \in S : \A n \in S : n <= m
\* fir and allpole: every row brings its own coefficients
FirV(c, h, zlen) ==
  LET x == c.sh.x IN
  IF Len(x) # 2 THEN Raise
  ELSE IF Len(h) # (IF c.tv THEN 3 ELSE 2) THEN Raise
  ELSE IF h[1] # x[1] \/ (c.tv /\ h[2] # x[2]) THEN Raise
  ELSE IF ~Has(c, "zi") THEN Take(x, NoFinal)
  ELSE IF c.sh.zi = <<x[1], zlen>> THEN Take(x, c.sh.zi) ELSE Raise
CombV(c) ==
  LET x == c.sh.x  d == c.d IN
  IF Len(x) # 2 THEN Raise
  ELSE IF c.sh.a \notin {<<>>, <<1>>, <<x[1]>>} THEN Raise
  ELSE IF ~Has(c, "zi") THEN Take(x, NoFinal)
  ELSE IF c.sh.zi \in {<<d>>, <<x[1], d>>} THEN Take(x, <<x[1], d>>)
  ELSE IF c.sh.zi \in {<<>>, <<1>>, <<1, 1>>, <<1, d>>, <<x[1], 1>>} \/ (d = 1 /\ c.sh.zi = <<x[1]>>) THEN Lenient ELSE Raise
LfCore(c) == IF c.tv THEN 2 ELSE 1
LfLeads(c) == {c.sh[n][1] : n \in {m \in {"a", "b"} : Len(c.sh[m]) = LfCore(c) + 1}}
LfV(c) ==
  LET x == c.sh.x  b == c.sh.b  a == c.sh.a  k == LfCore(c) IN
  IF Len(x) \notin {1, 2} \/ Len(b) \notin {k, k + 1} \/ Len(a) \notin {k, k + 1} THEN Raise
  ELSE LET N == Last(x, 1)
           B == IF Len(x) = 2 THEN x[1] ELSE 1
           n == MaxOf({Last(b, 1) - 1, Last(a, 1)})
           may(r, s) == r = s \/ r = 1 \/ s = 1
           ok(s) == (c.tv => may(Last(s, 2), N)) /\ (Len(s) = k + 1 => may(s[1], B))
           fits(s) == (c.tv => Last(s, 2) = N) /\ (Len(s) = k + 1 => Len(x) = 2 /\ s[1] = B)
           zi == IF Has(c, "zi") THEN c.sh.zi ELSE <<>>
           ignored == c.form \in {"df1", "tdf1"}       \* these keep past samples, not registers
       IN IF ~ok(b) \/ ~ok(a) \/ (\E s, t \in LfLeads(c) : ~may(s, t)) THEN Raise
          ELSE IF Has(c, "zi") /\ ~ignored /\
                  (Len(zi) \notin {1, 2} \/ ~(Last(zi, 1) \in {1, n}) \/ (Len(zi) = 2 /\ ~may(zi[1], B))) THEN Raise
          ELSE IF ~fits(b) \/ ~fits(a) \/ n = 0 THEN Lenient
          ELSE IF ~Has(c, "zi") THEN Take(x, NoFinal)
          ELSE IF zi = <<n>> \/ (Len(x) = 2 /\ zi = <<B, n>>)
               THEN Take(x, IF ignored THEN NoFinal ELSE IF Len(x) = 1 THEN <<n>> ELSE <<B, n>>)
          ELSE Lenient
\* a result of a lenient call keeps the rows and steps of x; filters may bring rows of their own to a single row
LenientOK(c, ys) ==
  LET x == c.sh.x IN
  IF c.op = "lf"
  THEN ys \in {x, IF Len(x) = 1 THEN <<1>> \o x ELSE x, <<MaxOf({IF Len(x) = 2 THEN x[1] ELSE 1} \cup LfLeads(c)
                          \cup (IF Has(c, "zi") /\ Len(c.sh.zi) = 2 THEN {c.sh.zi[1]} ELSE {})), Last(x, 1)>>}
  ELSE Len(ys) \in {2, 3} /\ ys[1] = x[1] /\ ys[2] = x[2]

Verdict(c) == CASE c.op \in RawOps -> Raw(c) [] c.op = "rec" -> RecV(c) [] c.op = "ssr" -> SsrV(c) [] c.op = "ss" -> SsV(c)
                [] c.op = "fir" -> FirV(c, c.sh.b, IF c.sh.b = <<>> THEN 0 ELSE Last(c.sh.b, 1) - 1)
                [] c.op = "ap" -> FirV(c, c.sh.a, IF c.sh.a = <<>> THEN 0 ELSE Last(c.sh.a, 1))
                [] c.op = "comb" -> CombV(c) [] c.op = "lf" -> LfV(c)
=============================================================================
