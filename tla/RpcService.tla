----------------------------- MODULE RpcService -----------------------------
(***************************************************************************)
(* What concurrent calls are to their callers: each one is accepted, and   *)
(* each is answered once, on its own connection, with its own answer.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT Answer(_)     \* the answer that a call should get

VARIABLES where,      \* call -> its connection
          accepted,   \* calls that have arrived
          replies     \* connection -> its replies so far, as <<call, answer>>

Answered == {c \in accepted : \E i \in 1..Len(replies[where[c]]) : replies[where[c]][i][1] = c}

Init == accepted = {} /\ \A k \in DOMAIN replies : replies[k] = <<>>
Accept(c) == c \notin accepted /\ accepted' = accepted \cup {c} /\ UNCHANGED <<where, replies>>
Reply(c) == /\ c \in accepted \ Answered
            /\ replies' = [replies EXCEPT ![where[c]] = Append(@, <<c, Answer(c)>>)]
            /\ UNCHANGED <<where, accepted>>
Next == \E c \in DOMAIN where : Accept(c) \/ Reply(c)
Spec == Init /\ [][Next]_<<where, accepted, replies>>
=============================================================================
