------------------------------ MODULE MCSteady ------------------------------
(***************************************************************************)
(* Closed forms against what they are meant to be, for every coefficient   *)
(* vector and history over the integers mod P:                             *)
(*  Fixpoint  the registers lfilter_zi returns (in units of 1/a(1)) are    *)
(*            kept by a step with constant input, which shows b(1)/a(1)    *)
(*  Continues the registers lfiltic returns carry on like the difference   *)
(*            equation does, whatever comes                                *)
(*  OnlyOnes  and no others do (for orders where all registers are seen)   *)
(*  Divides   polydiv: u = q v + r, deg r < deg v                          *)
(*  Flat      filtering a constant to and fro from the steady state gives  *)
(*            the constant times b(1)^2 (in units of 1/a(1)^2)             *)
(***************************************************************************)
EXTENDS Rings, SequencesExt
CONSTANTS Nb, Na, NGo
H == INSTANCE Helpers WITH Add <- RAdd, Mul <- RMul, Neg <- RNeg, Cj <- RCj, Zero <- 0, One <- 1, Bad <- -1
Scal == 0..(P - 1)
Ord == IF Nb - 1 > Na THEN Nb - 1 ELSE Na
VARIABLES b, a, px, py, go,      \* coefficients, past inputs and outputs (newest first), what comes
          d, q                   \* the difference equation and the registers, in step
vars == <<b, a, px, py, go, d, q>>
g(n, s) == IF n < 1 \/ n > Len(s) THEN 0 ELSE s[n]
\* lfiltic: register k holds what the past contributes k - 1 steps later
Lfiltic == [k \in 1..Ord |-> RAdd(H!SumSeq([j \in 1..(Ord - k + 1) |-> RMul(g(k + j, b), g(j, px))]),
                                  RNeg(H!SumSeq([j \in 1..(Ord - k + 1) |-> RMul(g(k + j - 1, a), g(j, py))])))]
Call == [op |-> "steady", B |-> 1, opt |-> [form |-> "tdf2"],
         arg |-> [b |-> [s |-> <<1, Nb>>, v |-> <<b>>], a |-> [s |-> <<1, Na>>, v |-> <<a>>]]]
Cont == [op |-> "continue", B |-> 1, opt |-> [form |-> "tdf2"],
         arg |-> [b |-> [s |-> <<1, Nb>>, v |-> <<b>>], a |-> [s |-> <<1, Na>>, v |-> <<a>>],
                  x |-> [s |-> <<1, Len(px)>>, v |-> <<px>>], y |-> [s |-> <<1, Len(py)>>, v |-> <<py>>],
                  go |-> [s |-> <<1, NGo>>, v |-> <<go>>]]]
LC(form, xs) == H!LfCase(Call, 1, form, xs)
Init ==
  /\ b \in [1..Nb -> Scal] /\ a \in [1..Na -> Scal]
  /\ px \in [1..Ord -> Scal] /\ py \in [1..Ord -> Scal]
  /\ go = [i \in 1..NGo |-> IF i = 1 THEN 1 ELSE 0]
  /\ d = [u |-> px, v |-> py]
  /\ q = Lfiltic
Next == \E x \in Scal :
  /\ d' = H!Df1Step(LC("df1", <<x>>), 1, 1, d).r
  /\ q' = H!Tdf2Step(LC("tdf2", <<x>>), 1, 1, q).r
  /\ px' = d'.u /\ py' = d'.v
  /\ UNCHANGED <<b, a, go>>
Spec == Init /\ [][Next]_vars
Continues == q = Lfiltic /\ H!ContOk(Cont, 1, q)
Others == [1..Ord -> Scal] \ {q}
OnlyOnes == \A z \in Others : ~H!ContOk(Cont, 1, z)
Fixpoint == \A f \in {"df2", "tdf2"} : H!SteadyOk([Call EXCEPT !.opt.form = f], 1, 1, H!Steady(Call, 1, f))
Flat == LET z == H!Steady(Call, 1, "tdf2")
            r == H!Tdf2Step(LC("tdf2", <<H!AtOne(Call, 1)>>), 1, 1, z)
            s == H!Tdf2Step(LC("tdf2", <<RMul(H!AtOne(Call, 1), r.y)>>), 1, 1, H!VecScale(r.y, z))
        IN s.y = RMul(H!Gain(Call, 1), H!Gain(Call, 1)) /\ s.r = H!VecScale(r.y, z)
\* long division of the past inputs (as a polynomial) by 1, a1, ...
DivCall == [op |-> "polydiv", B |-> 1, opt |-> [none |-> 0],
            arg |-> [u |-> [s |-> <<1, Ord + 1>>, v |-> <<<<1>> \o px>>], v |-> [s |-> <<1, Na + 1>>, v |-> <<<<1>> \o a>>],
                     inv |-> [s |-> <<1>>, v |-> <<1>>]]]
RECURSIVE DivRun(_, _, _)
DivRun(k, st, qs) == IF k > H!DivSteps(DivCall) THEN [q |-> qs, r |-> st]
                     ELSE DivRun(k + 1, H!DivNext(DivCall, 1, k, st), Append(qs, H!DivQ(DivCall, 1, k, st)))
Divides ==
  LET r == DivRun(1, <<1>> \o px, <<>>)  qv == H!PolyMul(r.q, <<1>> \o a)
  IN /\ \A i \in 1..(Ord + 1) : RAdd(qv[i], r.r[i]) = (<<1>> \o px)[i]
     /\ H!DivFin(DivCall, 1, r.r, SubSeq(r.r, H!DivSteps(DivCall) + 1, Ord + 1))
=============================================================================
