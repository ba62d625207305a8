------------------------------- MODULE Purity -------------------------------
(***************************************************************************)
(* Calls are pure.  The state is the memory as the caller sees it: the     *)
(* contents (a digest) and the metadata of every live tensor, the process- *)
(* wide settings, and what every call so far has returned for its inputs.  *)
(* A case is one recorded session: a history of                            *)
(*   new    tensors are created by the caller                              *)
(*   drop   tensors are forgotten                                          *)
(*   write  the caller overwrites a tensor (and whatever shares its memory)*)
(*   call   one or several (concurrent) calls return                       *)
(*   fresh  the session goes on in a process in which nothing has been     *)
(*          called yet: nothing is live, what calls returned still counts  *)
(* After every event the recorder looks at every live tensor.              *)
(*   - a call leaves every tensor that was there as it was;                *)
(*   - a write changes nothing but tensors that share the written memory;  *)
(*   - a call returns what the same call on the same contents returned     *)
(*     before, whatever happened in between, in which mode, in which       *)
(*     thread;                                                             *)
(*   - the settings of the process stay as they are.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS P, File
Cases == ndJsonDeserialize(File)

VARIABLES cid,      \* the session
          i,        \* events seen
          mem,      \* live tensor -> contents
          meta,     \* live tensor -> version, strides, flags
          memo,     \* what is known about the calls: a set of <<call, contents of its arguments, contents of its results>>
          bad
vars == <<cid, i, mem, meta, memo, bad>>
c == Cases[cid]
Keys(f) == DOMAIN f
NoTensors == [x \in {} |-> ""]

Init ==
  /\ cid \in 1..Len(Cases)
  /\ i = 0
  /\ mem = NoTensors
  /\ meta = NoTensors
  /\ memo = {}
  /\ bad = {}

Changed(f, g) == {x \in Keys(f) \cap Keys(g) : f[x] # g[x]}
Gone(f, g) == Keys(f) \ Keys(g)
ArgsOf(call) == [n \in 1..Len(call.args) |-> mem[call.args[n]]]
\* (a call that raises has to raise whenever it is made)
Results(call, look) == IF "err" \in DOMAIN call THEN call.err ELSE [n \in 1..Len(call.res) |-> look[call.res[n]]]
NewResults(e) == UNION {ToSet(e.calls[n].res) : n \in 1..Len(e.calls)}

Same(r, q) == ToString(r) = ToString(q)
\* clauses violated by one call of the event, given what earlier calls returned
Known(call, m) == {x \in m : x[1] = call.key /\ x[2] = ArgsOf(call)}
CallClauses(call, look, m) ==
  (IF "shared" \in DOMAIN call /\ Len(call.shared) > 0 THEN {"result in the memory of an argument"} ELSE {}) \cup
  IF \E x \in Known(call, m) : ~Same(x[3], Results(call, look)) THEN {"result"} ELSE {}
RECURSIVE Fold(_, _, _, _)
\* the calls of an event one after the other: <<memo, clauses>>
Fold(e, n, m, bd) ==
  IF n > Len(e.calls) THEN <<m, bd>>
  ELSE LET q == e.calls[n]
           cl == CallClauses(q, e.look, m)
       IN Fold(e, n + 1, m \cup {<<q.key, ArgsOf(q), Results(q, e.look)>>},
               bd \cup {<<i + 1, x, n>> : x \in cl})

Event ==
  /\ i < Len(c.events)
  /\ LET e == c.events[i + 1]
         common == (IF e.env # c.env THEN {<<i + 1, "environment", 0>>} ELSE {})
         same(S) == {<<i + 1, "argument or result changed", 0>> : x \in S}
         samem(S) == {<<i + 1, "metadata changed", 0>> : x \in S}
     IN CASE e.k = "new" -> /\ bad' = bad \cup common \cup same(Changed(mem, e.look)) /\ memo' = memo
          [] e.k = "drop" -> /\ bad' = bad \cup common \cup same(Changed(mem, e.look)) /\ memo' = memo
          [] e.k = "fresh" -> bad' = bad /\ memo' = memo
          [] e.k = "write" -> /\ bad' = bad \cup common \cup same(Changed(mem, e.look) \ ToSet(e.shares)) /\ memo' = memo
          [] e.k = "call" -> LET f == Fold(e, 1, memo, {})
                             IN /\ memo' = f[1]
                                /\ bad' = bad \cup common \cup f[2] \cup same(Changed(mem, e.look) \cup Gone(mem, e.look))
                                          \cup samem(Changed(meta, e.meta))
  /\ mem' = c.events[i + 1].look
  /\ meta' = c.events[i + 1].meta
  /\ i' = i + 1
  /\ UNCHANGED cid

Finish ==
  /\ i = Len(c.events)
  /\ PrintT("V " \o ToString(c.id) \o (IF bad = {} THEN " ACC " ELSE " REJ ") \o ToString({<<1, x[2], x[1], x[3]>> : x \in bad}))
  /\ i' = i + 1
  /\ UNCHANGED <<cid, mem, meta, memo, bad>>
Spec == Init /\ [][Event \/ Finish]_vars
=============================================================================
