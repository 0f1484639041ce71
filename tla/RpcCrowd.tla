------------------------------ MODULE RpcCrowd ------------------------------
(***************************************************************************)
(* Many calls at once.  Crowds of calls arrive whose handlers wait; any    *)
(* call among them whose handler does not wait is answered all the same;   *)
(* and when the handlers of a crowd go on, each of its calls is answered.  *)
(***************************************************************************)
EXTENDS RpcMsg, Json, CSV, IOUtils

CONSTANTS Conns, Steps, MaxWaiting
Sizes == <<1, 7, 64, 300, 1100, 4200>>

VARIABLES crowds,  \* waiting: each [conn, from, n]: the calls from .. from + n - 1 of a connection
          next,    \* the xids used on each connection
          owed,    \* the number of replies that each connection has had
          h
vars == <<crowds, next, owed, h>>

RECURSIVE Total(_, _)
Total(s, C) == IF s = <<>> THEN 0 ELSE (IF s[1].conn \in C THEN s[1].n ELSE 0) + Total(Tail(s), C)
Waiting == Total(crowds, 1..Conns)
On(c) == Total(crowds, {c})

Init == crowds = <<>> /\ next = [c \in 1..Conns |-> 0] /\ owed = [c \in 1..Conns |-> 0] /\ h = <<>>
\* n calls of a kind arrive on c.
Log(op, c, from, n) == h' = Append(h, [op |-> op, conn |-> c, from |-> from, n |-> n, waiting |-> (IF op = "wait" THEN Waiting + n ELSE IF op = "go" THEN Waiting - n ELSE Waiting)])
Arrive(c, n) == /\ Waiting + n <= MaxWaiting
                /\ crowds' = Append(crowds, [conn |-> c, from |-> next[c] + 1, n |-> n])
                /\ next' = [next EXCEPT ![c] = @ + n]
                /\ Log("wait", c, next[c] + 1, n)
                /\ UNCHANGED owed
\* A call that need not wait - served, or to no known procedure - is answered at once.
Probe(c, op) == /\ next' = [next EXCEPT ![c] = @ + 1]
                /\ owed' = [owed EXCEPT ![c] = @ + 1]
                /\ Log(op, c, next[c] + 1, 1)
                /\ UNCHANGED crowds
Go(i) == /\ owed' = [owed EXCEPT ![crowds[i].conn] = @ + crowds[i].n]
         /\ Log("go", crowds[i].conn, crowds[i].from, crowds[i].n)
         /\ crowds' = SubSeq(crowds, 1, i - 1) \o SubSeq(crowds, i + 1, Len(crowds))
         /\ UNCHANGED next

Pick(S) == RandomElement(S)
More == Len(h) < Steps
Step == \E w \in {Pick(1..10)}, c \in {Pick(1..Conns)}, n \in {Sizes[Pick(1..Len(Sizes))]} :
          CASE More /\ w <= 4 /\ Waiting + n <= MaxWaiting -> Arrive(c, n)
            [] More /\ w <= 6 -> Probe(c, "probe")
            [] More /\ w = 7 -> Probe(c, "none")
            [] OTHER -> IF crowds = <<>> THEN Probe(c, "probe") ELSE \E i \in {Pick(1..Len(crowds))} : Go(i)
Finished == ~More /\ crowds = <<>>
Emit == /\ Finished
        /\ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT \o "/" \o IOEnv.SHARD)
        /\ FALSE
Next == (~Finished /\ Step) \/ Emit
Spec == Init /\ [][Next]_vars

\* Every call is answered once or waits.
Accounted == \A c \in 1..Conns : next[c] = owed[c] + On(c)
OncePerXid == \A i, j \in 1..Len(crowds) : i # j /\ crowds[i].conn = crowds[j].conn =>
                 crowds[i].from + crowds[i].n <= crowds[j].from \/ crowds[j].from + crowds[j].n <= crowds[i].from

\* The bytes; the driver puts the xid (bytes 5 to 8) in.
Procs == [wait |-> U32(1), probe |-> U32(2), none |-> U32(9)]
Calls == [k \in DOMAIN Procs |-> Record(EncCall(U32(0), U32(2), U32(7), U32(1), Procs[k], NoAuth, NoAuth, <<>>))]
Replies == [k \in DOMAIN Procs |-> Record(EncMsg(IF k = "none" THEN Status(U32(0), PROC_UNAVAIL) ELSE Success(U32(0), NoAuth)))]
ASSUME IOEnv.SHARD # "0" \/ JsonSerialize(IOEnv.OUT \o "/table.json", [calls |-> Calls, replies |-> Replies])
=============================================================================
