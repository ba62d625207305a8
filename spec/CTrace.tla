------------------------------- MODULE CTrace -------------------------------
(***************************************************************************)
(* Trace validation of calls against the contract: every view of a case is *)
(* one way the call was made (real tensors, fake tensors, meta tensors,    *)
(* other layouts, block sizes) and has err, or the shape ys, stride st and *)
(* dtype dt of the output and the shape fs of the final state.             *)
(***************************************************************************)
EXTENDS Contract, Json
CONSTANTS File, P
Cases == ndJsonDeserialize(File)
VARIABLES cid, done
vars == <<cid, done>>
c == Cases[cid]

Clause(v) ==
  LET w == Verdict(c)
      err == "err" \in DOMAIN v
  IN IF w.k = "raise" THEN (IF err THEN "" ELSE "taken")
     ELSE IF w.k = "take" /\ err THEN "refused"
     ELSE IF err THEN ""
     ELSE IF w.k = "lenient"
          THEN IF LenientOK(c, v.ys) THEN "" ELSE "shape"
     ELSE IF v.ys # w.s THEN "shape"
     ELSE IF v.fs # w.f THEN "finalshape"
     ELSE IF "st" \in DOMAIN v /\ ~StrideOK(v.ys, v.st) THEN "stride"
     ELSE IF "dt" \in DOMAIN v /\ v.dt # c.dt.x THEN "dtype"
     ELSE ""

Init == cid \in 1..Len(Cases) /\ done = FALSE
Decide ==
  /\ ~done
  /\ done' = TRUE
  /\ LET bad == {<<i, Clause(c.views[i]), 0, 0>> : i \in {j \in 1..Len(c.views) : Clause(c.views[j]) # ""}}
     IN PrintT("V " \o ToString(c.id) \o (IF bad = {} THEN " ACC " ELSE " REJ ") \o ToString(bad))
  /\ UNCHANGED cid
Spec == Init /\ [][Decide]_vars
=============================================================================
