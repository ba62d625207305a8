-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: every case is one recorded set of executions of the   *)
(* implementation on the same arguments ("views": different block sizes,   *)
(* backends, layouts, dtypes, chunkings ...).  The machine of the case is  *)
(* stepped sample by sample and every observation of every view has to be  *)
(* what the machine shows at that step.                                    *)
(*                                                                         *)
(* A view has                                                              *)
(*   ys, y   shape and values of the output sequence                       *)
(*   zf      observed final states: <<[t, s, v]>>, each the registers after*)
(*           step t (several for a signal processed in chunks)             *)
(*   idx     (state recursion) the component that was asked for            *)
(*   err     instead of all these: the call raised                         *)
(*   jy, jzf tangents of outputs and final state (forward mode)            *)
(*   g       flat gradients by argument (reverse mode)                     *)
(*   h, hw   second derivatives                                            *)
(* A case may name rows that are tainted (they held NaN or infinity): for  *)
(* those nothing is promised, all other rows must be unaffected.           *)
(*                                                                         *)
(* Verdicts are total: each case ends in exactly one line                  *)
(*   V <id> ACC | REJ | OUT {<<view, clause, step, row>>, ...}             *)
(* (OUT: the shapes are outside the specification; nothing is checked).    *)
(***************************************************************************)
EXTENDS Rings, FiniteSets, Json, SequencesExt
CONSTANT File

Cases == ndJsonDeserialize(File)

R == INSTANCE Machines WITH Add <- RAdd, Mul <- RMul, Neg <- RNeg, Cj <- RCj, Zero <- 0, One <- 1
C == INSTANCE Machines WITH Add <- CAdd, Mul <- CMul, Neg <- CNeg, Cj <- CCj, Zero <- CZero, One <- COne
DR == INSTANCE Machines WITH Add <- DRAdd, Mul <- DRMul, Neg <- DRNeg, Cj <- DRCj, Zero <- DRZero, One <- DROne
DC == INSTANCE Machines WITH Add <- DCAdd, Mul <- DCMul, Neg <- DCNeg, Cj <- DCCj, Zero <- DCZero, One <- DCOne
HR == INSTANCE Machines WITH Add <- HRAdd, Mul <- HRMul, Neg <- HRNeg, Cj <- HRCj, Zero <- HRZero, One <- HROne
HC == INSTANCE Machines WITH Add <- HCAdd, Mul <- HCMul, Neg <- HCNeg, Cj <- HCCj, Zero <- HCZero, One <- HCOne

VARIABLES cid, t, regs, bad, acc
vars == <<cid, t, regs, bad, acc>>

Opt(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
c == Cases[cid]

RowInit(cc, b) == CASE cc.ring = "R" -> R!RowInit(cc, b) [] cc.ring = "C" -> C!RowInit(cc, b)
                    [] cc.ring = "DR" -> DR!RowInit(cc, b) [] cc.ring = "DC" -> DC!RowInit(cc, b)
                    [] cc.ring = "HR" -> HR!RowInit(cc, b) [] cc.ring = "HC" -> HC!RowInit(cc, b)
RowStep(cc, b, k, q) == CASE cc.ring = "R" -> R!RowStep(cc, b, k, q) [] cc.ring = "C" -> C!RowStep(cc, b, k, q)
                    [] cc.ring = "DR" -> DR!RowStep(cc, b, k, q) [] cc.ring = "DC" -> DC!RowStep(cc, b, k, q)
                    [] cc.ring = "HR" -> HR!RowStep(cc, b, k, q) [] cc.ring = "HC" -> HC!RowStep(cc, b, k, q)

\* parts of an element
Plain(cc) == cc.ring \in {"R", "C"}
Cx(cc) == cc.ring \in {"C", "DC", "HC"}
El0(cc) == IF Cx(cc) THEN CZero ELSE 0
V(cc, e) == IF Plain(cc) THEN e ELSE e[1]
\* derivative in direction i of a dual, or part i of a hyper-dual number
D(cc, e, i) == IF cc.ring \in {"HR", "HC"} THEN e[i + 1] ELSE IF e[2] = <<>> THEN El0(cc) ELSE e[2][i]
VecY(cc) == Len(R!OutTail(cc)) = 1
MapY(cc, y, Op(_)) == IF VecY(cc) THEN [i \in 1..Len(y) |-> Op(y[i])] ELSE Op(y)

Rows(cc) == {b \in 1..cc.B : b \notin Range(Opt(cc, "taint", <<>>))}
Squeeze(cc) == Opt(cc, "squeeze", FALSE)

\* ---- shapes -------------------------------------------------------------
OutShape(cc, v) ==
  LET s == <<cc.B, cc.N>> \o (IF "idx" \in DOMAIN v THEN <<>> ELSE R!OutTail(cc))
  IN IF Squeeze(cc) THEN Tail(s) ELSE s
FinShape(cc) == IF Squeeze(cc) THEN <<R!FinalLen(cc)>> ELSE <<cc.B, R!FinalLen(cc)>>
\* what must be there: the output always, the final state exactly if the call has one
ShapeClause(cc, v) ==
  IF "err" \in DOMAIN v THEN "raised"
  ELSE IF ~("ys" \in DOMAIN v) THEN ""
  ELSE IF v.ys # OutShape(cc, v) THEN "shape"
  ELSE IF R!HasFinal(cc) # (Len(v.zf) > 0) THEN "finalpresence"
  ELSE IF \E i \in 1..Len(v.zf) : v.zf[i].s # FinShape(cc) THEN "finalshape"
  ELSE Opt(v, "clause", "")

\* shapes the call is specified for (the recorder does not resolve roles)
InDomain(cc) == cc.op = "ss" => R!SsShapeOK(cc)

Init ==
  /\ cid \in 1..Len(Cases)
  /\ t = 0
  /\ regs = TLCEval([b \in 1..c.B |-> RowInit(c, b)])
  /\ bad = IF ~InDomain(c) THEN {} ELSE {<<i, ShapeClause(c, c.views[i]), 0, 0>> : i \in {j \in 1..Len(c.views) : ShapeClause(c, c.views[j]) # ""}}
  /\ acc = Opt(c, "acc0", <<>>)

Alive(bd) == {i \in 1..Len(c.views) : ~\E x \in bd : x[1] = i}

Obs(cc, seq, b, k) == IF Squeeze(cc) THEN seq[k] ELSE seq[k][b]
\* what the view shows of an output: the whole of it or one component
YV(cc, v, y) == IF "idx" \in DOMAIN v THEN V(cc, R!At(y, v.idx))
                ELSE IF VecY(cc) THEN [i \in 1..Len(y) |-> V(cc, y[i])] ELSE V(cc, y)
YD(cc, v, y, n) == IF "idx" \in DOMAIN v THEN D(cc, R!At(y, v.idx), n)
                ELSE IF VecY(cc) THEN [i \in 1..Len(y) |-> D(cc, y[i], n)] ELSE D(cc, y, n)
\* all rows of step k as a view that shows everything would hold them
Whole(cc, v, r) == IF Squeeze(cc) THEN YV(cc, v, r[1].y) ELSE [b \in 1..cc.B |-> YV(cc, v, r[b].y)]

\* clauses violated by view v in row b when the machine emits r at step k
Clauses(v, b, k, r) ==
     (IF "y" \in DOMAIN v /\ Obs(c, v.y, b, k) # YV(c, v, r.y) THEN {"output"} ELSE {})
  \cup (IF "jy" \in DOMAIN v /\ Obs(c, v.jy, b, k) # YD(c, v, r.y, 1) THEN {"tangent"} ELSE {})
  \cup (IF "hw" \in DOMAIN v /\ Obs(c, v.hw, b, k) # YD(c, v, r.y, 1) THEN {"second-derivative"} ELSE {})
  \cup UNION {IF v.zf[i].t = k /\ (LET z == IF Squeeze(c) THEN v.zf[i].v ELSE v.zf[i].v[b]
                                   IN z # [j \in 1..Len(r.r) |-> V(c, r.r[j])])
              THEN {"final-state"} ELSE {} : i \in 1..Len(Opt(v, "zf", <<>>))}
  \cup (IF "jzf" \in DOMAIN v /\ k = c.N /\ v.jzf[b] # [j \in 1..Len(r.r) |-> D(c, r.r[j], 1)]
        THEN {"tangent-final-state"} ELSE {})
\* nothing to find: the output is as a whole what it has to be and this is all
\* there is to compare at this step (only saves looking at it row by row)
Same(cc, v, k, whole, r) ==
  /\ "y" \in DOMAIN v
  /\ v.y[k] = IF "idx" \in DOMAIN v THEN [b \in 1..cc.B |-> V(cc, R!At(r[b].y, v.idx))] ELSE whole
  /\ "jy" \notin DOMAIN v /\ "hw" \notin DOMAIN v
  /\ \A i \in 1..Len(v.zf) : v.zf[i].t # k

\* real part of <w, derivative n of y>
Re(cc, w, e) == IF Cx(cc) THEN CRe(w, e) ELSE RRe(w, e)
RECURSIVE SumOn(_, _)
SumOn(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN RAdd(f[x], SumOn(S \ {x}, f))
PairY(w, y, n) ==
  IF "idx" \in DOMAIN c.w THEN Re(c, w, D(c, R!At(y, c.w.idx), n))
  ELSE IF VecY(c) THEN LET f == TLCEval([i \in 1..Len(y) |-> Re(c, w[i], D(c, y[i], n))]) IN SumOn(1..Len(y), f)
  ELSE Re(c, w, D(c, y, n))
PairF(w, q, n) == LET f == TLCEval([i \in 1..Len(q) |-> Re(c, w[i], D(c, q[i], n))]) IN SumOn(1..Len(q), f)
\* directions summed into acc: every argument (dual), or the mixed second derivative
Dir(n) == IF c.ring \in {"HR", "HC"} THEN 3 ELSE n
Accumulate(k, r) ==
  IF ~("w" \in DOMAIN c) THEN acc
  ELSE TLCEval([n \in 1..Len(acc) |->
         LET f == TLCEval([b \in Rows(c) |->
                RAdd(IF "y" \in DOMAIN c.w THEN PairY(Obs(c, c.w.y, b, k), r[b].y, Dir(n)) ELSE 0,
                     IF "zf" \in DOMAIN c.w /\ k = c.N
                     THEN PairF(IF Squeeze(c) THEN c.w.zf ELSE c.w.zf[b], r[b].r, Dir(n)) ELSE 0)])
         IN RAdd(acc[n], SumOn(Rows(c), f))])

Step ==
  /\ t < c.N
  /\ InDomain(c)
  \* (\E over one value: evaluated once, unlike a definition)
  /\ \E r \in {TLCEval([b \in 1..c.B |-> RowStep(c, b, t + 1, regs[b])])} :
     \E whole \in {TLCEval(Whole(c, <<>>, r))} :
     \E A \in {Alive(bad)} :
        /\ regs' = [b \in 1..c.B |-> r[b].r]
        /\ bad' = bad \cup UNION {UNION {{<<i, cl, t + 1, b>> : cl \in Clauses(c.views[i], b, t + 1, r[b])} : b \in Rows(c)}
                             : i \in {j \in A : ~Same(c, c.views[j], t + 1, whole, r)}}
        /\ acc' = Accumulate(t + 1, r)
  /\ t' = t + 1
  /\ UNCHANGED cid

\* real pairing of a flat gradient with the flat direction it belongs to;
\* values that are not on the grid (-1) match nothing
OnGrid(g) == \A i \in 1..Len(g) : IF Cx(c) THEN g[i][1] # -1 ELSE g[i] # -1
FlatRe(g, v) == FoldLeft(LAMBDA a, i : RAdd(a, Re(c, g[i], v[i])), 0, [i \in 1..Len(g) |-> i])
GradBad(v) ==
  IF "g" \in DOMAIN v
  THEN {n \in DOMAIN v.g : ~OnGrid(v.g[n]) \/ Len(v.g[n]) # Len(c.tan[n])
                           \/ FlatRe(v.g[n], c.tan[n]) # acc[c.dir[n]]}
  ELSE {}
HessBad(v) ==
  IF "h" \in DOMAIN v
  THEN IF (\A n \in DOMAIN v.h : OnGrid(v.h[n]) /\ Len(v.h[n]) = Len(c.tan[n]))
          /\ FoldLeft(LAMBDA a, n : RAdd(a, FlatRe(v.h[n], c.tan[n])), 0, SetToSeq(DOMAIN v.h)) = acc[1]
       THEN {} ELSE {"h"}
  ELSE {}

Finish ==
  /\ t = c.N
  /\ InDomain(c)
  /\ LET b2 == bad \cup {<<i, "gradient", c.N, n>> : i \in {j \in Alive(bad) : GradBad(c.views[j]) # {}}, n \in {0}}
                   \cup {<<i, "second-derivative", c.N, 0>> : i \in {j \in Alive(bad) : HessBad(c.views[j]) # {}}}
     IN /\ PrintT("V " \o ToString(c.id) \o (IF b2 = {} THEN " ACC " ELSE " REJ ") \o ToString(b2))
        /\ bad' = b2
  /\ t' = t + 1
  /\ UNCHANGED <<cid, regs, acc>>

\* a call the specification says nothing about
Outside ==
  /\ t = 0
  /\ ~InDomain(c)
  /\ PrintT("V " \o ToString(c.id) \o " OUT {}")
  /\ t' = -1
  /\ UNCHANGED <<cid, regs, bad, acc>>

Spec == Init /\ [][Step \/ Finish \/ Outside]_vars

\* every case is decided
Decided == TLCGet("stats").distinct >= Len(Cases)
=============================================================================
