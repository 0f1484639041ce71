------------------------------ MODULE E2ETrace ------------------------------
(***************************************************************************)
(* Checks what was recorded of the code against RpcE2E, in the form of     *)
(* RpcE2EMon: each recorded sequence of events must be one that it         *)
(* accepts.  The first event that it does not is written out.              *)
(***************************************************************************)
EXTENDS RpcE2EMon, Json, CSV, IOUtils, TLC

\* (as in E2EPlan)
AllIds == 1..56
MultiIds == 41..46
RawIds == 47..56
ASSUME TLCSet(1, TLCEval(ndJsonDeserialize(IOEnv.LOG)))
Log == TLCGet(1)
VARIABLES t, i, S
vars == <<t, i, S>>
Init == t = 1 /\ i = 1 /\ S = {MStart}
NextTrace == t' = t + 1 /\ i' = 1 /\ S' = {MStart}
Step ==
  /\ t <= Len(Log)
  /\ IF i > Len(Log[t]) THEN NextTrace
     ELSE \E T \in {TLCEval(UNION {Mon(m, Log[t][i]) : m \in S})} :
          IF T # {} THEN t' = t /\ i' = i + 1 /\ S' = T
          ELSE CSVWrite("%1$s", <<ToJson([t |-> t, i |-> i, n |-> Cardinality(S)])>>, IOEnv.OUT) /\ NextTrace
Spec == Init /\ [][Step]_vars
=============================================================================
