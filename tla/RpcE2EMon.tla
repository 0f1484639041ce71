------------------------------ MODULE RpcE2EMon ------------------------------
(***************************************************************************)
(* The same relation as RpcE2E, in one state instead of a set of them: it  *)
(* is left open which invocation serves which of equal calls, as long as   *)
(* there is a way to assign them.  An invocation may serve the calls that  *)
(* were made before it, so a later one may serve more of them; that is why *)
(* it is enough to count, and why the earliest that fits is the one to     *)
(* take when a call returns.  MCE2EMon compares this with RpcE2E.          *)
(*   calls: [c, n, k, a, t: when it was made,                              *)
(*           opt: returned; nobody knows whether a handler ran, or will]   *)
(*   invs:  those whose call has not returned, or is not known:            *)
(*          [i, k, a, t: when it was, done, r]                             *)
(*   last, cut, used: as in RpcE2E                                         *)
(*   t:     how many events there have been                                *)
(* Mon(m, e) is what may come after m: nothing or one state.               *)
(***************************************************************************)
EXTENDS RpcE2E

MStart == [calls |-> {}, invs |-> {}, last |-> [c \in Clients |-> 0], cut |-> {}, used |-> 0, t |-> 1]
\* Can all the invocations of procedure k with argument a be assigned to calls?
Fits(m, k, a) ==
  \E I \in {{i.t : i \in {i \in m.invs : i.k = k /\ i.a = a}}}, C \in {{x.t : x \in {x \in m.calls : x.k = k /\ x.a = a}}} :
    \A u \in I : Cardinality({v \in I : v <= u}) <= Cardinality({x \in C : x < u})
\* Can the calls that must be served be assigned to invocations?
Served(m, k, a) ==
  \E I \in {{i.t : i \in {i \in m.invs : i.k = k /\ i.a = a}}},
     C \in {{x.t : x \in {x \in m.calls : x.k = k /\ x.a = a /\ x.c \notin m.cut /\ ~x.opt}}} :
    \A u \in C : Cardinality({v \in C : v >= u}) <= Cardinality({i \in I : i > u})
\* Call x returns with result r
Bind(m, x, r) ==
  LET I == {i \in m.invs : i.done /\ i.r = r /\ i.k = x.k /\ i.a = x.a /\ i.t > x.t} IN
  IF I = {} THEN {}
  ELSE LET i == CHOOSE i \in I : \A j \in I : i.t <= j.t IN
       {y \in {[m EXCEPT !.calls = @ \ {x}, !.invs = @ \ {i}]} : Fits(y, x.k, x.a)}

MonStep(m, e) ==
  CASE e.e = "call" ->
         IF e.c \in Clients /\ (e.c \in Raw \cup Multi \/ ~\E x \in m.calls : x.c = e.c /\ ~x.opt) /\ e.n = m.last[e.c] + 1
         THEN {[m EXCEPT !.last[e.c] = e.n,
                         !.calls = @ \cup {[c |-> e.c, n |-> e.n, k |-> e.k, a |-> e.a, t |-> m.t, opt |-> FALSE]}]}
         ELSE {}
    [] e.e = "enter" ->
         IF e.i # m.used + 1 \/ e.k = 0 THEN {}
         ELSE {y \in {[m EXCEPT !.used = e.i, !.invs = @ \cup {[i |-> e.i, k |-> e.k, a |-> e.a, t |-> m.t, done |-> FALSE, r |-> 0]}]}
                 : Fits(y, e.k, e.a)}
    [] e.e = "exit" ->
         {[m EXCEPT !.invs = (@ \ {i}) \cup {[i EXCEPT !.done = TRUE, !.r = e.r]}] : i \in {i \in m.invs : i.i = e.i /\ ~i.done /\ i.a = e.a}}
    [] e.e = "ret" ->
         UNION {IF e.ok THEN IF e.r = BadResult THEN {} ELSE Bind(m, x, e.r)
                ELSE IF x.k = 0 THEN {[m EXCEPT !.calls = @ \ {x}]}
                ELSE IF x.c \in m.cut THEN {[m EXCEPT !.calls = (@ \ {x}) \cup {[x EXCEPT !.opt = TRUE]}]}
                ELSE Bind(m, x, BadResult)
                : x \in {x \in m.calls : x.c = e.c /\ x.n = e.n /\ ~x.opt /\ x.c \notin Raw}}
    [] e.e = "cut" -> {[m EXCEPT !.cut = @ \cup {e.c}]}
    [] e.e = "end" ->
         IF \A x \in m.calls : x.c \in m.cut \/ x.opt \/ (x.c \in Raw /\ (x.k = 0 \/ Served(m, x.k, x.a))) THEN {m} ELSE {}
    [] OTHER -> {}
Mon(m, e) == {[y EXCEPT !.t = @ + 1] : y \in MonStep(m, e)}
=============================================================================
