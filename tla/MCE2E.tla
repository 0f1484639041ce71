------------------------------- MODULE MCE2E -------------------------------
(***************************************************************************)
(* Clients, connections and the server, step by step, watched by RpcE2E:   *)
(* every behaviour of theirs is one that RpcE2E accepts, and the calls of  *)
(* connections that are in order return whatever becomes of the others.    *)
(* A connection carries records both ways; a peer that does not read takes *)
(* one reply, and after that writing to it blocks.                         *)
(*                                                                         *)
(* Variant: "good", or a way to build it that must be found to be wrong:   *)
(*   "lock"  replies are written under one lock                            *)
(*   "last"  a reply goes to the connection that was served last           *)
(*   "twice" a request that comes while another is served is served twice  *)
(*   "share" the argument is in a buffer that the next request overwrites  *)
(*   "die"   garbage ends the server for all                               *)
(***************************************************************************)
EXTENDS RpcE2E, TLC
CONSTANTS Variant, MaxCalls, Args
Good == Clients \ Raw
\* What a handler returns depends on which invocation it is.
ResultOf(i) == 10 + i

VARIABLES mon,    \* what RpcE2E thinks
          cl,     \* [n, open: calls so far, those that wait]; n is the xid as well
          req, rep, \* records on the way
          up,     \* connections that have not failed
          tasks,  \* of the server: [id, c, x, a, st, i, r]
          ninv, seen, lock, server
vars == <<mon, cl, req, rep, up, tasks, ninv, seen, lock, server>>

Init == /\ mon = {Start} /\ cl = [c \in Clients |-> [n |-> 0, open |-> {}]]
        /\ req = [c \in Clients |-> <<>>] /\ rep = [c \in Clients |-> <<>>]
        /\ up = Clients /\ tasks = {} /\ ninv = 0 /\ seen = 0 /\ lock = 0 /\ server = TRUE
Ev(e) == mon' = After(mon, e)

Call(c, a) ==
  /\ cl[c].n < MaxCalls /\ c \in up /\ (c \in Raw \cup Multi \/ cl[c].open = {})
  /\ Ev([e |-> "call", c |-> c, n |-> cl[c].n + 1, k |-> 1, a |-> a])
  /\ cl' = [cl EXCEPT ![c] = [n |-> @.n + 1, open |-> @.open \cup {@.n + 1}]]
  /\ req' = [req EXCEPT ![c] = Append(@, [x |-> cl[c].n + 1, a |-> a])]
  /\ UNCHANGED <<rep, up, tasks, ninv, seen, lock, server>>
Garbage(c) ==
  /\ c \in Raw /\ c \in up /\ req[c] = <<>> /\ cl[c].n < MaxCalls
  /\ req' = [req EXCEPT ![c] = Append(@, [x |-> 0, a |-> 0])]
  /\ UNCHANGED <<mon, cl, rep, up, tasks, ninv, seen, lock, server>>
Cut(c) ==
  /\ c \in up /\ up' = up \ {c} /\ Ev([e |-> "cut", c |-> c])
  /\ UNCHANGED <<cl, req, rep, tasks, ninv, seen, lock, server>>
Task(c, x, a, id) == [id |-> id, c |-> c, x |-> x, a |-> a, st |-> "ready", i |-> 0, r |-> 0]
Overwrite(a) == IF Variant = "share" THEN {[t EXCEPT !.a = IF t.st \in {"ready", "run"} THEN a ELSE @] : t \in tasks} ELSE tasks
\* (what is on the way when a connection fails may be lost)
Receive(c) ==
  /\ server /\ req[c] # <<>>
  /\ req' = [req EXCEPT ![c] = Tail(@)]
  /\ LET q == Head(req[c]) IN
     IF q.x = 0 THEN /\ server' = (Variant # "die") /\ UNCHANGED <<tasks, seen>>
     ELSE /\ tasks' = Overwrite(q.a) \cup {Task(c, q.x, q.a, <<c, q.x, 1>>)}
                       \cup (IF Variant = "twice" /\ tasks # {} THEN {Task(c, q.x, q.a, <<c, q.x, 2>>)} ELSE {})
          /\ seen' = c /\ UNCHANGED server
  /\ UNCHANGED <<mon, cl, rep, up, ninv, lock>>
Lose(c) ==
  /\ c \notin up /\ req[c] # <<>> /\ req' = [req EXCEPT ![c] = <<>>]
  /\ UNCHANGED <<mon, cl, rep, up, tasks, ninv, seen, lock, server>>
Upd(t, u) == tasks' = (tasks \ {t}) \cup {u}
Enter(t) ==
  /\ server /\ t.st = "ready" /\ ninv' = ninv + 1 /\ Upd(t, [t EXCEPT !.st = "run", !.i = ninv + 1])
  /\ Ev([e |-> "enter", i |-> ninv + 1, k |-> 1, a |-> t.a])
  /\ UNCHANGED <<cl, req, rep, up, seen, lock, server>>
Exit(t) ==
  /\ server /\ t.st = "run" /\ Upd(t, [t EXCEPT !.st = "write", !.r = ResultOf(t.i)])
  /\ Ev([e |-> "exit", i |-> t.i, a |-> t.a, r |-> ResultOf(t.i)])
  /\ UNCHANGED <<cl, req, rep, up, ninv, seen, lock, server>>
Lock(t) ==
  /\ Variant = "lock" /\ t.st = "write" /\ lock = 0 /\ lock' = t.i
  /\ UNCHANGED <<mon, cl, req, rep, up, tasks, ninv, seen, server>>
Write(t) ==
  /\ server /\ t.st = "write" /\ (Variant = "lock" => lock = t.i)
  /\ LET d == IF Variant = "last" THEN seen ELSE t.c IN
     /\ (d \notin up \/ rep[d] = <<>>)  \* the peer must take it
     /\ rep' = IF d \in up THEN [rep EXCEPT ![d] = Append(@, [x |-> t.x, r |-> t.r])] ELSE rep
  /\ tasks' = tasks \ {t} /\ lock' = 0
  /\ UNCHANGED <<mon, cl, req, up, ninv, seen, server>>
Return(c) ==
  /\ c \in Good
  /\ \/ /\ rep[c] # <<>> /\ rep' = [rep EXCEPT ![c] = Tail(@)]
        /\ LET q == Head(rep[c]) IN
           IF q.x \in cl[c].open
           THEN /\ Ev([e |-> "ret", c |-> c, n |-> q.x, ok |-> TRUE, r |-> q.r]) /\ cl' = [cl EXCEPT ![c].open = @ \ {q.x}]
           ELSE \* the reply to no call, which fails a client that waits
                \E n \in cl[c].open : /\ Ev([e |-> "ret", c |-> c, n |-> n, ok |-> FALSE, r |-> 0])
                                      /\ cl' = [cl EXCEPT ![c].open = @ \ {n}]
     \/ /\ c \notin up /\ UNCHANGED rep
        /\ \E n \in cl[c].open : /\ Ev([e |-> "ret", c |-> c, n |-> n, ok |-> FALSE, r |-> 0])
                                 /\ cl' = [cl EXCEPT ![c].open = @ \ {n}]
  /\ UNCHANGED <<req, up, tasks, ninv, seen, lock, server>>
Inner(t) == Enter(t) \/ Exit(t) \/ Lock(t) \/ Write(t)
Next == \/ \E c \in Clients : \/ \E a \in Args : Call(c, a)
                              \/ Garbage(c) \/ Cut(c) \/ Receive(c) \/ Lose(c) \/ Return(c)
        \/ \E t \in tasks : Inner(t)
\* (which task of a connection goes on does not matter: there are finitely many)
Fair == \A c \in Clients : /\ WF_vars(Receive(c)) /\ WF_vars(Return(c))
                           /\ WF_vars(\E t \in tasks : t.c = c /\ (Enter(t) \/ Exit(t) \/ Write(t)))
                           /\ SF_vars(\E t \in tasks : t.c = c /\ Lock(t))
Spec == Init /\ [][Next]_vars /\ Fair

Accepted == mon # {}
\* When nothing more can happen inside, RpcE2E agrees that it is over.
Quiet == /\ tasks = {} /\ (\A c \in Clients : req[c] = <<>>) /\ \A c \in Good : cl[c].open = {}
EndAccepted == Quiet => After(mon, [e |-> "end"]) # {}
\* The calls of connections in order return.
CallsReturn == \A c \in Good, n \in 1..MaxCalls : (n \in cl[c].open /\ c \in up) ~> (n \notin cl[c].open \/ c \notin up)
=============================================================================
