------------------------------- MODULE HTrace -------------------------------
(***************************************************************************)
(* Trace validation for the helpers (module Helpers): every case is one    *)
(* call with the observations of every way it was made; the helper's       *)
(* machine is stepped and every observation has to be allowed at its step. *)
(* A view has ys (shape), y (values by step, then row), z, zs (second      *)
(* result), or err.  One verdict line per case, as in Trace.               *)
(***************************************************************************)
EXTENDS Rings, FiniteSets, Json, SequencesExt
CONSTANT File
Cases == ndJsonDeserialize(File)

R == INSTANCE Helpers WITH Add <- RAdd, Mul <- RMul, Neg <- RNeg, Cj <- RCj, Zero <- 0, One <- 1, Bad <- -1
C == INSTANCE Helpers WITH Add <- CAdd, Mul <- CMul, Neg <- CNeg, Cj <- CCj, Zero <- CZero, One <- COne, Bad <- <<-1, -1>>

VARIABLES cid, k, st, bad
vars == <<cid, k, st, bad>>
Opt(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
c == Cases[cid]
Cx == c.ring = "C"
N == R!HN(c)
InDom == IF Cx THEN C!HDom(c) ELSE R!HDom(c)
Init0(b) == IF Cx THEN C!HInit(c, b) ELSE R!HInit(c, b)
Ok(b, q, s, o) == IF Cx THEN C!HOk(c, b, q, s, o) ELSE R!HOk(c, b, q, s, o)
Nxt(b, q, s) == IF Cx THEN C!HNext(c, b, q, s) ELSE R!HNext(c, b, q, s)
Fin(b, s, z) == IF Cx THEN C!HFin(c, b, s, z) ELSE R!HFin(c, b, s, z)
Done(b, s) == IF Cx THEN C!HDone(c, b, s) ELSE R!HDone(c, b, s)

Shape == IF "squeeze" \in DOMAIN c THEN Tail(R!HShape(c)) ELSE R!HShape(c)
ShapeClause(v) ==
  IF "err" \in DOMAIN v THEN "raised"
  ELSE IF Shape # <<-1>> /\ v.ys # Shape THEN "shape"
  ELSE IF R!HTwo(c) # ("z" \in DOMAIN v) THEN "presence"
  ELSE IF R!HTwo(c) /\ v.zs # R!HShape2(c) THEN "shape2"
  ELSE IF ~R!HCount(c, v) THEN "count"
  ELSE Opt(v, "clause", "")

Init ==
  /\ cid \in 1..Len(Cases)
  /\ k = 0
  /\ st = IF InDom THEN TLCEval([b \in 1..c.B |-> Init0(b)]) ELSE <<>>
  /\ bad = IF InDom THEN {<<i, ShapeClause(c.views[i]), 0, 0>> : i \in {j \in 1..Len(c.views) : ShapeClause(c.views[j]) # ""}} ELSE {}
Alive(bd) == {i \in 1..Len(c.views) : ~\E x \in bd : x[1] = i}

Step ==
  /\ k < N
  /\ InDom
  /\ LET q == k + 1
         j == R!HIdx(c, q)
     IN /\ bad' = bad \cup UNION {{<<i, "value", q, b>> : b \in {r \in 1..c.B :
                          ~Ok(r, q, st[r], c.views[i].y[j][r])}}
                        : i \in {v \in Alive(bad) : j > 0 /\ q <= R!HKnown(c, c.views[v])}}
        /\ st' = TLCEval([b \in 1..c.B |-> Nxt(b, q, st[b])])
  /\ k' = k + 1
  /\ UNCHANGED cid

Finish ==
  /\ k = N
  /\ InDom
  /\ LET b2 == bad \cup UNION {{<<i, "second result", k, b>> : b \in {r \in 1..c.B :
                                  ~Fin(r, st[r], c.views[i].z[r])}}
                               : i \in {v \in Alive(bad) : R!HTwo(c)}}
               \cup (IF \A b \in 1..c.B : Done(b, st[b]) THEN {} ELSE {<<1, "meaning", k, 0>>})
     IN /\ PrintT("V " \o ToString(c.id) \o (IF b2 = {} THEN " ACC " ELSE " REJ ") \o ToString(b2))
        /\ bad' = b2
  /\ k' = k + 1
  /\ UNCHANGED <<cid, st>>

Outside ==
  /\ k = 0
  /\ ~InDom
  /\ PrintT("V " \o ToString(c.id) \o " OUT {}")
  /\ k' = -1
  /\ UNCHANGED <<cid, st, bad>>

Spec == Init /\ [][Step \/ Finish \/ Outside]_vars
=============================================================================
