----------------------------- MODULE RpcServer ------------------------------
(***************************************************************************)
(* The server as it is built: the serving loop of each connection takes a  *)
(* request buffer from a pool (or makes one), reads a record into it and   *)
(* starts a goroutine, which decodes, runs the handler - whose arguments   *)
(* are slices of the request buffer -, encodes the reply, writes it in one *)
(* piece and returns the buffer to the pool.                               *)
(*                                                                         *)
(* Every interleaving keeps the arguments of a running call intact and     *)
(* answers each call with what was computed for it; the whole implements   *)
(* RpcService.  FreeAt and Spawn describe broken variants of the server,   *)
(* which must not have these properties (spec self-test).                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Plans,      \* the workloads: each a sequence of [conn, size, kind]
          FreeAt,     \* "written": when the buffer returns to the pool; broken: "exit", "enc"
          Spawn,      \* TRUE: a goroutine per request; broken: FALSE
          Blocked     \* calls whose handler never returns

VARIABLES plan,
          st,         \* call -> idle, run, ret, enc, done (written), freed
          held,       \* call -> its request buffer (0: none)
          mem,        \* buffer -> the call whose record it holds
          cap,        \* buffer -> its capacity
          pool,       \* free buffers
          reply,      \* call -> what its reply was computed from
          sent        \* connection -> replies sent
vars == <<plan, st, held, mem, cap, pool, reply, sent>>

Calls == 1..Len(plan)
Conns == {plan[c].conn : c \in Calls}
HasHandler(c) == plan[c].kind # "none"
HasResult(c) == plan[c].kind \in {"echo", "fail"}

Init == /\ plan \in Plans
        /\ st = [c \in 1..Len(plan) |-> "idle"]
        /\ held = [c \in 1..Len(plan) |-> 0]
        /\ mem = <<>> /\ cap = <<>> /\ pool = {}
        /\ reply = [c \in 1..Len(plan) |-> 0]
        /\ sent = [k \in {plan[c].conn : c \in 1..Len(plan)} |-> <<>>]

\* The record of c arrives: the records of a connection arrive in order.
Turn(c) == /\ st[c] = "idle"
           /\ \A d \in Calls : d < c /\ plan[d].conn = plan[c].conn => st[d] # "idle"
           /\ ~Spawn => \A d \in Calls : plan[d].conn = plan[c].conn /\ d # c => st[d] \in {"idle", "done", "freed"}
Feed(c) ==
  /\ Turn(c)
  /\ \/ \E b \in pool : /\ cap[b] >= plan[c].size
                        /\ held' = [held EXCEPT ![c] = b]
                        /\ mem' = [mem EXCEPT ![b] = c]
                        /\ pool' = pool \ {b}
                        /\ UNCHANGED cap
     \* a pooled buffer that is too small is dropped
     \/ \E drop \in {{}} \cup {{b} : b \in {b \in pool : cap[b] < plan[c].size}} :
          /\ held' = [held EXCEPT ![c] = Len(mem) + 1]
          /\ mem' = Append(mem, c)
          /\ cap' = Append(cap, plan[c].size)
          /\ pool' = pool \ drop
  /\ st' = [st EXCEPT ![c] = IF HasHandler(c) THEN "run" ELSE "enc"]
  /\ reply' = [reply EXCEPT ![c] = IF HasHandler(c) THEN 0 ELSE mem'[held'[c]]]
  /\ UNCHANGED <<plan, sent>>

Freed(c, when) == IF FreeAt = when THEN pool \cup {held[c]} ELSE pool

\* The handler returns.  Its result refers to its arguments.
Exit(c) ==
  /\ st[c] = "run" /\ c \notin Blocked
  /\ st' = [st EXCEPT ![c] = IF HasResult(c) THEN "ret" ELSE "enc"]
  /\ reply' = [reply EXCEPT ![c] = IF HasResult(c) THEN 0 ELSE mem[held[c]]]
  /\ pool' = Freed(c, "exit")
  /\ UNCHANGED <<plan, held, mem, cap, sent>>
\* The result is encoded.
Encode(c) ==
  /\ st[c] = "ret"
  /\ st' = [st EXCEPT ![c] = "enc"]
  /\ reply' = [reply EXCEPT ![c] = mem[held[c]]]
  /\ pool' = Freed(c, "enc")
  /\ UNCHANGED <<plan, held, mem, cap, sent>>
\* The reply is written.
Write(c) ==
  /\ st[c] = "enc"
  /\ st' = [st EXCEPT ![c] = "done"]
  /\ sent' = [sent EXCEPT ![plan[c].conn] = Append(@, <<c, reply[c]>>)]
  /\ UNCHANGED <<plan, held, mem, cap, pool, reply>>
Free(c) ==
  /\ st[c] = "done"
  /\ st' = [st EXCEPT ![c] = "freed"]
  /\ pool' = Freed(c, "written")
  /\ UNCHANGED <<plan, held, mem, cap, reply, sent>>

Next == \E c \in Calls : Feed(c) \/ Exit(c) \/ Encode(c) \/ Write(c) \/ Free(c)
Fair == \A c \in 1..4 : WF_vars(c \in Calls /\ (Feed(c) \/ Exit(c) \/ Encode(c) \/ Write(c) \/ Free(c)))
Spec == Init /\ [][Next]_vars /\ Fair

----------------------------------------------------------------------------
Active(c) == st[c] \in {"run", "ret", "enc"}
\* The arguments of a call are intact until its reply has been written.
ArgsStable == \A c \in Calls : Active(c) => mem[held[c]] = c
Exclusive == \A c, d \in Calls : c # d /\ Active(c) /\ Active(d) => held[c] # held[d]
PoolFree == \A c \in Calls : Active(c) => held[c] \notin pool
OwnReplies == \A k \in Conns : \A i \in 1..Len(sent[k]) : sent[k][i][1] = sent[k][i][2] /\ plan[sent[k][i][1]].conn = k
OncePerCall == \A k \in Conns : \A i, j \in 1..Len(sent[k]) : i # j => sent[k][i][1] # sent[k][j][1]

\* Refinement of RpcService.
Svc == INSTANCE RpcService WITH accepted <- {c \in Calls : st[c] # "idle"}, replies <- sent,
                                where <- [c \in Calls |-> plan[c].conn], Answer <- LAMBDA c : c
Refines == Svc!Spec

\* A blocked handler delays no other call.
NotDelayed == \A c \in 1..4 : <>(c \in Calls => (c \in Blocked \/ st[c] = "freed"))
=============================================================================
