------------------------------ MODULE MCStream ------------------------------
(***************************************************************************)
(* Hand-over between calls.  A stream is cut anywhere: each call gets the  *)
(* final state of the one before and a chunk of any length 1..MaxC (also   *)
(* shorter than the number of registers), and computes its final state the *)
(* way the code does, from the history and the chunk as a whole.  The      *)
(* machine sees the samples one by one.  The final state handed over is    *)
(* always what the machine holds (Complete), and what the calls put out is *)
(* what the machine puts out (Seamless).                                   *)
(***************************************************************************)
EXTENDS Rings
CONSTANTS Nb, Na, Delay, MaxC
M == INSTANCE Machines WITH Add <- RAdd, Mul <- RMul, Neg <- RNeg, Cj <- RCj, Zero <- 0, One <- 1
Scal == 0..(P - 1)
Ord == IF Nb - 1 > Na THEN Nb - 1 ELSE Na
VARIABLES op, b, a,
          q,         \* the machine
          z,         \* what was handed over by the last call
          seam       \* did the last call put out what the machine puts out?
vars == <<op, b, a, q, z, seam>>

Call(xs) ==
  [op |-> IF op = "df2" THEN "lf" ELSE op, tv |-> FALSE, B |-> 1, N |-> Len(xs), opt |-> [form |-> "df2", tr |-> FALSE, delay |-> Delay],
   arg |-> [b |-> [s |-> <<Nb>>, v |-> b], a |-> IF op = "comb" THEN [s |-> <<>>, v |-> a[1]] ELSE [s |-> <<Na>>, v |-> a],
            x |-> [s |-> <<1, Len(xs)>>, v |-> <<xs>>]]]
NReg == CASE op = "fir" -> Nb - 1 [] op = "ap" -> Na [] op = "comb" -> Delay [] op = "df2" -> Ord
RECURSIVE Run(_, _, _, _)
Run(xs, k, r, ys) == IF k > Len(xs) THEN [y |-> ys, r |-> r]
                     ELSE LET s == M!RowStep(Call(xs), 1, k, r) IN Run(xs, k + 1, s.r, Append(ys, s.y))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* the last n of history and chunk, newest first
Tail_(h, xs, n) == LET all == Rev(h) \o xs IN Rev(SubSeq(all, Len(all) - n + 1, Len(all)))
\* a whole call the way the code makes it
FirCode(h, xs) ==
  LET all == Rev(h) \o xs
  IN [y |-> [t \in 1..Len(xs) |-> M!Dot(b, Rev(SubSeq(all, t, t + Nb - 1)))], z |-> Tail_(h, xs, Nb - 1)]
ApCode(h, xs) ==
  LET RECURSIVE Y(_)
      Y(t) == IF t <= 0 THEN h[1 - t] ELSE M!Sub(xs[t], M!Dot(a, [i \in 1..Na |-> Y(t - i)]))
      ys == TLCEval([t \in 1..Len(xs) |-> Y(t)])
  IN [y |-> ys, z |-> Tail_(h, ys, Na)]
CombCode(h, xs) ==
  LET RECURSIVE Y(_)
      Y(t) == IF t <= 0 THEN h[1 - t] ELSE M!Sub(xs[t], RMul(a[1], Y(t - Delay)))
      ys == TLCEval([t \in 1..Len(xs) |-> Y(t)])
  IN [y |-> ys, z |-> Tail_(h, ys, Delay)]
\* all-pole then FIR on the two heads of one delay line; the longer of the two final states is handed on
Df2Code(h, xs) ==
  LET p == ApCode(SubSeq(h, 1, Na), xs)
      f == FirCode(SubSeq(h, 1, Nb - 1), p.y)
  IN [y |-> f.y, z |-> IF Len(f.z) > Len(p.z) THEN f.z ELSE p.z]
Code(h, xs) == CASE op = "fir" -> FirCode(h, xs) [] op = "ap" -> ApCode(h, xs)
                 [] op = "comb" -> CombCode(h, xs) [] op = "df2" -> Df2Code(h, xs)

Init ==
  /\ op \in {"fir", "ap", "comb", "df2"}
  /\ b \in [1..Nb -> Scal] /\ a \in [1..Na -> Scal]
  /\ q \in [1..NReg -> Scal]
  /\ z = q /\ seam = TRUE
Next ==
  \E n \in 1..MaxC : \E xs \in [1..n -> Scal] :
    LET m == Run(xs, 1, q, <<>>)  k == Code(z, xs)
    IN q' = m.r /\ z' = k.z /\ seam' = (m.y = k.y) /\ UNCHANGED <<op, b, a>>
Spec == Init /\ [][Next]_vars
Complete == z = q
Seamless == seam
=============================================================================
