------------------------------ MODULE MCE2EMon ------------------------------
(***************************************************************************)
(* RpcE2EMon accepts the sequences of events that RpcE2E does, and no      *)
(* others: both are given all sequences of up to Depth events.             *)
(***************************************************************************)
EXTENDS RpcE2EMon, TLC
CONSTANTS Depth, Ks, Args, Results
VARIABLES S, m, over
vars == <<S, m, over>>
Init == S = {Start} /\ m = {MStart} /\ over = FALSE
\* Those of which it depends on the past whether they are accepted
Events ==
  LET s == CHOOSE s \in S : TRUE IN
       {[e |-> "call", c |-> c, n |-> s.last[c] + 1, k |-> k, a |-> a] : c \in Clients, k \in Ks, a \in Args}
  \cup {[e |-> "enter", i |-> s.used + 1, k |-> k, a |-> a] : k \in Ks, a \in Args}
  \cup {[e |-> "exit", i |-> i, a |-> a, r |-> r] : i \in 1..s.used, a \in Args, r \in Results}
  \cup {[e |-> "ret", c |-> c, n |-> n, ok |-> ok, r |-> r] : c \in Clients, n \in 1..Depth, ok \in BOOLEAN, r \in Results}
  \cup {[e |-> "cut", c |-> c] : c \in Clients \ s.cut}
  \cup {[e |-> "end"]}
\* (after a rejected event there is nothing more to compare)
Next == /\ ~over /\ S # {} /\ m # {} /\ (\A x \in m : x.t <= Depth)
        /\ \E e \in Events :
             /\ S' = After(S, e)
             /\ m' = UNION {Mon(x, e) : x \in m}
             /\ over' = (e.e = "end")
Spec == Init /\ [][Next]_vars
Same == (S = {}) = (m = {})
One == Cardinality(m) <= 1
=============================================================================
