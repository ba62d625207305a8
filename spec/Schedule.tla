------------------------------ MODULE Schedule ------------------------------
(***************************************************************************)
(* The histories sessions are made of: a caller holding a few calls (slots)*)
(* and doing things to them in any order.  Simulation prints histories of  *)
(* length K, which are then carried out against the real code and the      *)
(* recorded session is checked against Purity.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS S, K, Modes

VARIABLES hist, dirty, held
vars == <<hist, dirty, held>>
\* dirty[s]: the arguments of slot s hold other values than at first; held: slots whose last result is still kept
Init == hist = <<>> /\ dirty = [s \in 1..S |-> FALSE] /\ held = {}
Do(a) == hist' = Append(hist, a)
\* one call in one of the modes
Call(s, m) == Do([do |-> "call", s |-> s, mode |-> m]) /\ held' = held \cup {s} /\ UNCHANGED dirty
\* several calls at once from different threads
Together(T, m) == Do([do |-> "together", s |-> T, mode |-> m]) /\ held' = held \cup T /\ UNCHANGED dirty
\* the caller overwrites arguments / puts the old values back
Spoil(s) == ~dirty[s] /\ Do([do |-> "spoil", s |-> s]) /\ dirty' = [dirty EXCEPT ![s] = TRUE] /\ UNCHANGED held
Restore(s) == dirty[s] /\ Do([do |-> "restore", s |-> s]) /\ dirty' = [dirty EXCEPT ![s] = FALSE] /\ UNCHANGED held
\* the caller overwrites a result it was given
Scribble(s) == s \in held /\ Do([do |-> "scribble", s |-> s]) /\ held' = held \ {s} /\ UNCHANGED dirty
\* equal arguments in other memory
Renew(s) == Do([do |-> "renew", s |-> s]) /\ UNCHANGED <<dirty, held>>
Next ==
  /\ Len(hist) < K
  /\ \/ \E s \in 1..S, m \in Modes : Call(s, m)
     \/ \E T \in {U \in SUBSET (1..S) : Cardinality(U) \in 2..3}, m \in {"plain", "grad"} : Together(T, m)
     \/ \E s \in 1..S : Spoil(s) \/ Restore(s) \/ Scribble(s) \/ Renew(s)
Done == Len(hist) = K /\ PrintT("H " \o ToJson(hist)) /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Done]_vars
TypeOK == held \subseteq 1..S /\ \A s \in 1..S : dirty[s] \in BOOLEAN
=============================================================================
