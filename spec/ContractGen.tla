----------------------------- MODULE ContractGen -----------------------------
(***************************************************************************)
(* Calls worth making: start from shapes that fit together, then spoil up  *)
(* to K axes (another size, one axis less, one axis more).  Checked here:  *)
(* every operator call the contract takes stays inside its arguments, and  *)
(* the untouched calls are taken.  Each finished call is printed.          *)
(***************************************************************************)
EXTENDS Contract, Json
CONSTANTS Kind, Sizes, K

VARIABLES ph, dims, call, edits
vars == <<ph, dims, call, edits>>

Letters == IF Kind = "raw" THEN <<"B", "N", "M">> ELSE IF Kind = "filt" THEN <<"B", "N", "L", "M">> ELSE <<"B", "N", "M", "F", "K">>
Init == ph = "dims" /\ dims = <<>> /\ call = [op |-> "none"] /\ edits = 0

ChooseDim ==
  /\ ph = "dims"
  /\ Len(dims) < Len(Letters)
  /\ \E n \in Sizes : dims' = Append(dims, n)
  /\ UNCHANGED <<ph, call, edits>>
V(l) == IF l = "1" THEN 1 ELSE dims[CHOOSE i \in 1..Len(Letters) : Letters[i] = l]
Sh(r) == [i \in 1..Len(r) |-> V(r[i])]

RawBase(op) ==
  IF op = "lti_recur"
  THEN {[op |-> op, sh |-> [A |-> a, zi |-> Sh(<<"B">>), x |-> Sh(<<"B", "N">>)]] : a \in {<<>>, <<1>>, Sh(<<"B">>)}}
  ELSE LET two == op \in {"recur2", "lti_recur2"}
           m == IF two THEN 2 ELSE V("M")
           core == IF op \in {"recurN", "recur2"} THEN <<V("N"), m, m>> ELSE <<m, m>>
       IN {[op |-> op, sh |-> [A |-> a, zi |-> <<V("B"), m>>, x |-> <<V("B"), V("N"), m>>]] : a \in {core, <<V("B")>> \o core}}
Set(s) == {s[i] : i \in 1..Len(s)}
With(n, r) == IF r = <<"-">> THEN <<>> ELSE n :> Sh(r)
\* L taps, M feedback coefficients, or a delay of L
FiltBase ==
  LET B == V("B")  N == V("N")  L == V("L")  M == V("M")
      zi(s) == IF s = <<-1>> THEN <<>> ELSE "zi" :> s
      st(tv, batch, l) == (IF batch THEN <<B>> ELSE <<>>) \o (IF tv THEN <<N>> ELSE <<>>) \o <<l>>
      n == MaxOf({L - 1, M})
      xy(one) == IF one THEN <<N>> ELSE <<B, N>>
  IN {[op |-> "fir", tv |-> tv, ix |-> FALSE, sh |-> ("b" :> st(tv, TRUE, L)) @@ ("x" :> <<B, N>>) @@ zi(z)] :
        tv \in BOOLEAN, z \in {<<-1>>, <<B, L - 1>>}}
     \cup {[op |-> "ap", tv |-> TRUE, ix |-> FALSE, sh |-> ("a" :> st(TRUE, TRUE, M)) @@ ("x" :> <<B, N>>) @@ zi(z)] :
        z \in {<<-1>>, <<B, M>>}}
     \cup {[op |-> "comb", tv |-> FALSE, ix |-> FALSE, d |-> L, sh |-> ("a" :> a) @@ ("x" :> <<B, N>>) @@ zi(z)] :
        a \in {<<>>, <<1>>, <<B>>}, z \in {<<-1>>, <<L>>, <<B, L>>}}
     \cup {[op |-> "lf", tv |-> q[1], ix |-> FALSE, form |-> q[2], be |-> q[3],
             sh |-> ("b" :> st(q[1], q[4] = "xb" \/ q[4] = "xab", L)) @@ ("a" :> st(q[1], q[4] = "xa" \/ q[4] = "xab", M))
                    @@ ("x" :> xy(q[4] = "1")) @@ zi(q[5])] :
        q \in {r \in BOOLEAN \X {"df1", "df2", "tdf1", "tdf2"} \X {"ssm", "torchlpc"} \X {"1", "x", "xa", "xb", "xab"}
                     \X {<<-1>>, <<n>>, <<B, n>>} :
                 /\ r[3] = "torchlpc" => r[1] /\ r[2] # "tdf2"
                 /\ r[4] = "1" => Len(r[5]) = 1}}
PubBase ==
  IF Kind = "rec" THEN
    {[op |-> "rec", tv |-> tv, ix |-> FALSE, sh |-> [a |-> Sh(a), zi |-> Sh(z), x |-> Sh(<<"B", "N">>)]] :
       <<tv, a, z>> \in {q \in BOOLEAN \X {<<>>, <<"1">>, <<"B">>, <<"N">>, <<"B", "N">>} \X {<<>>, <<"1">>, <<"B">>} :
                          IF q[1] THEN q[2] \in {<<"N">>, <<"B", "N">>} ELSE q[2] \in {<<>>, <<"1">>, <<"B">>}}}
  ELSE IF Kind = "ssr" THEN
    {[op |-> "ssr", tv |-> q[1], ix |-> q[4],
      sh |-> [A |-> Sh((IF q[2] THEN <<"B">> ELSE <<>>) \o (IF q[1] THEN <<"N", "M", "M">> ELSE <<"M", "M">>)),
              zi |-> Sh(<<"B", "M">>), x |-> Sh(IF q[3] THEN <<"B", "N">> ELSE <<"B", "N", "M">>)]] :
       q \in BOOLEAN \X BOOLEAN \X BOOLEAN \X BOOLEAN}
  ELSE FiltBase
Opt(rs) == Set(rs) \cup {<<"-">>}
SsBase ==   \* the system and the signal; the other arguments are chosen one at a time
  {[op |-> "ss", tv |-> tv, ix |-> FALSE, sc |-> sc,
    sh |-> ("A" :> Sh((IF shared THEN <<>> ELSE <<"B">>) \o (IF tv THEN <<"N", "M", "M">> ELSE <<"M", "M">>)))] :
     tv \in BOOLEAN, sc \in BOOLEAN, shared \in BOOLEAN}
Start ==
  /\ ph = "dims"
  /\ Len(dims) = Len(Letters)
  /\ IF Kind = "raw" THEN \E op \in RawOps : \E b \in RawBase(op) : call' = b /\ ph' = "edit" /\ dims' = <<>>
     ELSE IF Kind = "ss" THEN \E b \in SsBase : call' = b /\ ph' = "Bm" /\ UNCHANGED dims
     ELSE \E b \in PubBase : call' = b /\ ph' = "edit" /\ dims' = <<>>
  /\ UNCHANGED edits
More ==
  /\ ph \in {"Bm", "C", "D", "zi"}
  /\ \E r \in (IF ph = "zi" THEN {<<"-">>, <<"M">>, <<"B", "M">>} ELSE Opt(Roles(call.tv, call.sc)[ph])) :
       IF ph # "zi"
       THEN call' = [call EXCEPT !.sh = @ @@ With(ph, r) @@
                       (IF ph = "Bm" THEN ("x" :> Sh(IF call.sc THEN <<"B", "N">> ELSE IF r = <<"-">> THEN <<"B", "N", "M">>
                                                     ELSE <<"B", "N", "F">>)) ELSE <<>>)]
       ELSE \E ix \in (IF "C" \in DOMAIN call.sh THEN {FALSE} ELSE BOOLEAN) :
              call' = [op |-> "ss", tv |-> call.tv, ix |-> ix, sh |-> call.sh @@ With("zi", r)]
  /\ ph' = (CASE ph = "Bm" -> "C" [] ph = "C" -> "D" [] ph = "D" -> "zi" [] OTHER -> "edit")
  /\ dims' = IF ph = "zi" THEN <<>> ELSE dims
  /\ UNCHANGED edits
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, i, n) == SubSeq(s, 1, i - 1) \o <<n>> \o SubSeq(s, i, Len(s))
Edit ==
  /\ ph = "edit"
  /\ edits < K
  /\ \E n \in DOMAIN call.sh :
       LET s == call.sh[n] IN
       \/ \E i \in 1..Len(s), v \in Sizes : v # s[i] /\ call' = [call EXCEPT !.sh[n][i] = v]
       \/ \E i \in 1..Len(s) : call' = [call EXCEPT !.sh[n] = Drop(s, i)]
       \/ \E i \in 1..(Len(s) + 1), v \in Sizes : Len(s) < 5 /\ call' = [call EXCEPT !.sh[n] = Ins(s, i, v)]
  /\ edits' = edits + 1
  /\ UNCHANGED <<ph, dims>>
Show ==
  /\ ph = "edit"
  /\ PrintT("H " \o ToJson(call))
  /\ ph' = "done"
  /\ UNCHANGED <<dims, call, edits>>
Next == ChooseDim \/ Start \/ More \/ Edit \/ Show
Spec == Init /\ [][Next]_vars

\* in exhaustive runs the same call reached twice counts once
View == <<ph, dims, call, IF ph = "done" THEN 0 ELSE edits>>

NoDt(cc) == [A |-> "f", zi |-> "f", x |-> "f"]
Safe == (ph \in {"edit", "done"} /\ call.op \in RawOps /\ RawOK(call.op, call.sh.A, call.sh.zi, call.sh.x))
        => InBounds(call.op, call.sh.A, call.sh.zi, call.sh.x)
Fitting == (ph = "edit" /\ edits = 0) =>
             IF call.op \in RawOps THEN RawOK(call.op, call.sh.A, call.sh.zi, call.sh.x)
             ELSE IF call.op # "ss" THEN Verdict(call).k = "take"
             ELSE TRUE
=============================================================================
