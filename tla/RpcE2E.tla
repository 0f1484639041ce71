------------------------------- MODULE RpcE2E -------------------------------
(***************************************************************************)
(* What clients and handlers see of each other, end to end, as a relation  *)
(* between states and events.  A state s is                                *)
(*   calls: the calls that are not over,                                   *)
(*          [c, n, k, a: client, number, procedure, argument,              *)
(*           i: the invocation that serves it (0: none yet),               *)
(*           st: "open" (not returned) or "gone" (returned, its connection *)
(*               was cut, but a handler may yet run),                      *)
(*           done, r: whether the handler has returned, and what]          *)
(*   last:  the number of each client's last call                          *)
(*   cut:   the clients whose connections failed                           *)
(*   used:  how many invocations there have been                           *)
(* An event e is one of                                                    *)
(*   call  c n k a     a client calls; raw peers may have many calls open  *)
(*   enter i k a       a handler is called                                 *)
(*   exit  i a r       it returns r; its argument still is a               *)
(*   ret   c n ok r    the client's call returns                           *)
(*   cut   c           a connection fails                                  *)
(*   end               everything is over                                  *)
(* A call of a procedure that is not registered has k = 0.  BadResult is   *)
(* one that does not encode.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Clients,  \* the clients
          Raw,      \* those among them that are no clients but peers that only write
          Multi     \* those that do not wait for a reply before they call again
BadResult == 0

Start == [calls |-> {}, last |-> [c \in Clients |-> 0], cut |-> {}, used |-> 0]
Open(s, c) == {x \in s.calls : x.c = c /\ x.st = "open"}
\* (those of a raw peer do not return)
Waits(s, c, n) == {x \in Open(s, c) : x.n = n /\ c \notin Raw}
Set(s, x, y) == [s EXCEPT !.calls = (@ \ {x}) \cup {y}]
Drop(s, x) == [s EXCEPT !.calls = @ \ {x}]

Succ(s, e) ==
  CASE e.e = "call" ->
         IF e.c \in Clients /\ (e.c \in Raw \cup Multi \/ Open(s, e.c) = {}) /\ e.n = s.last[e.c] + 1
         THEN {[s EXCEPT !.last[e.c] = e.n,
                         !.calls = @ \cup {[c |-> e.c, n |-> e.n, k |-> e.k, a |-> e.a, i |-> 0, st |-> "open", done |-> FALSE, r |-> 0]}]}
         ELSE {}
    [] e.e = "enter" ->
         \* it is the invocation of one call that has none
         IF e.i # s.used + 1 \/ e.k = 0 THEN {}
         ELSE LET S == {x \in s.calls : x.i = 0 /\ x.k = e.k /\ x.a = e.a} IN
              \* (equal calls of a raw peer are not told apart)
              {[Set(s, x, [x EXCEPT !.i = e.i]) EXCEPT !.used = e.i]
                 : x \in {x \in S : x.c \in Raw => \A y \in S : y.c = x.c => y.n >= x.n}}
    [] e.e = "exit" ->
         {IF x.st = "gone" \/ x.c \in Raw THEN Drop(s, x) ELSE Set(s, x, [x EXCEPT !.done = TRUE, !.r = e.r])
            : x \in {x \in s.calls : x.i = e.i /\ ~x.done /\ x.a = e.a}}
    [] e.e = "ret" /\ e.ok ->
         {Drop(s, x) : x \in {x \in Waits(s, e.c, e.n) : x.done /\ x.r = e.r /\ e.r # BadResult}}
    [] e.e = "ret" /\ ~e.ok ->
         {IF x.done \/ x.k = 0 THEN Drop(s, x) ELSE Set(s, x, [x EXCEPT !.st = "gone"])
            : x \in {x \in Waits(s, e.c, e.n) : (x.c \in s.cut \/ x.k = 0 \/ (x.done /\ x.r = BadResult))}}
    [] e.e = "cut" -> {[s EXCEPT !.cut = @ \cup {e.c}]}
    [] e.e = "end" ->
         \* every call on a connection that is in order was served and has returned
         IF \A x \in s.calls : x.c \in s.cut \/ (x.c \in Raw /\ (x.k = 0 \/ x.i # 0)) THEN {s} ELSE {}
    [] OTHER -> {}
\* Which states may be after an event, if one of S was before.
After(S, e) == UNION {Succ(s, e) : s \in S}
=============================================================================
