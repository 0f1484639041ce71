------------------------------ MODULE ExServer ------------------------------
(***************************************************************************)
(* The example server (example/server): it listens on a port of its own,   *)
(* has the portmapper forget any MOUNT version 3 and NFS version 3 and     *)
(* then register its own port for each, and serves that port.  If a        *)
(* registration is refused, or the portmapper does not answer properly, it *)
(* ends unsuccessfully; the registration of MOUNT, if it had been made, is *)
(* taken back first.  Having registered, it serves every connection for    *)
(* ever; it has no procedures.                                             *)
(***************************************************************************)
EXTENDS RpcMsg, Json, CSV, IOUtils

CONSTANTS Random
OutDir == IOEnv.OUT
Shard  == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)

VARIABLES step,    \* requests to the portmapper that have been answered
          maps,    \* the programs that the portmapper has registered for it
          st,      \* "run"; "clean": it is taking back what it registered; "serve"; "failed"; "done"
          conns,   \* connection -> "open" or "over"
          pm,      \* the exchanges with the portmapper
          h        \* what happens while it serves
vars == <<step, maps, st, conns, pm, h>>

MOUNT == 100005
NFS == 100003
AfterXid(b) == SubSeq(b, 5, Len(b))
C(proc, args) == AfterXid(EncCall(U32(0), U32(2), U32(100000), U32(2), U32(proc), NoAuth, NoAuth, args))
Map(prog) == U32(prog) \o U32(3) \o U32(6)
\* hole: the server's port follows.
Unset(prog) == [req |-> C(2, Map(prog) \o U32(0)), hole |-> FALSE]
Set(prog)   == [req |-> C(1, Map(prog)), hole |-> TRUE]
TakeBack    == [req |-> C(2, Map(MOUNT)), hole |-> TRUE]
Request(k) == <<Unset(MOUNT), Set(MOUNT), Unset(NFS), Set(NFS)>>[k]

Ans(x, b, end) == [x |-> x, b |-> b, end |-> end]
Yes(res) == AfterXid(EncMsg(Success(U32(0), NoAuth))) \o res
Truth(b) == Ans("is", Yes(U32(b)), "")
Failures == [s \in 1..4 |-> Ans("is", AfterXid(EncMsg(Status(U32(0), U32(<<1, 3, 4, 5>>[s])))) \o (IF s % 2 = 0 THEN U32(1) ELSE <<>>), "")]
  \o <<Ans("is", AfterXid(EncMsg(Mismatch(U32(0), U32(3), U32(4)))), ""), Ans("is", AfterXid(EncMsg(Denied(U32(0), U32(2), U32(2)))), ""),
       Ans("is", AfterXid(EncMsg(AuthError(U32(0), U32(1)))), ""), Ans("other", Yes(U32(1)), ""), Ans("is", Yes(<<>>), ""), Ans("is", Yes(<<0, 0, 0>>), ""),
       Ans("is", <<>>, "")>>
  \o [e \in 1..4 |-> Ans("is", Yes(U32(1)), <<"eof", "nonfinal", "torn", "halfmark">>[e])]

Exchange(k0, q0, a0) ==
  \E k \in {k0}, q \in {q0}, a \in {a0} :
  LET fine == a \in {Truth(0), Truth(1)}
      yes  == a = Truth(1) IN
  /\ pm' = Append(pm, q @@ [a |-> a])
  /\ UNCHANGED <<conns, h>>
  /\ IF st = "clean"
     THEN st' = "failed" /\ maps' = (IF fine THEN {} ELSE maps) /\ UNCHANGED step
     ELSE /\ step' = k
          /\ maps' = IF k = 2 /\ yes THEN {MOUNT} ELSE IF k = 4 /\ yes THEN {MOUNT, NFS} ELSE maps
          /\ st' = IF fine /\ (yes \/ k \in {1, 3}) THEN (IF k = 4 THEN "serve" ELSE "run")
                   ELSE IF maps # {} THEN "clean" ELSE "failed"
Talk(a) == \/ st = "run" /\ Exchange(step + 1, Request(step + 1), a)
           \/ st = "clean" /\ Exchange(step, TakeBack, a)

\* ---------------------------------------------------------------- serving
Body(n, prog, vers, proc) == EncCall(U32(n), U32(2), U32(prog), U32(vers), U32(proc), NoAuth, NoAuth, IF n % 2 = 0 THEN <<>> ELSE U32(n))
Calls(n) == << Body(n, NFS, 3, 0), Body(n, MOUNT, 3, 1), Body(n, 100000, 2, 4), Body(n, 0, 0, 0),
               EncCall(U32(n), U32(3), U32(NFS), U32(3), U32(0), NoAuth, NoAuth, <<>>),
               EncCall(U32(n), U32(2), U32(NFS), U32(3), U32(3), <<U32(1), [i \in 1..20 |-> 0]>>, NoAuth, U32(5)) >>
Junk(n) == << <<>>, U32(n), U32(n) \o U32(1) \o U32(0), EncMsg(Success(U32(n), NoAuth)), SubSeq(Body(n, NFS, 3, 0), 1, 24) >>
Event(c, what, b, reply) == [c |-> c, what |-> what, b |-> b, reply |-> reply]
\* A connection carries records until it is over: closed between records, in the middle of one, or by a
\* fragment that is not the last - or it stays open, in the middle of one.
Finals(n) == << Event(0, "close", <<>>, <<>>), Event(0, "close", SubSeq(Record(Body(n, NFS, 3, 0)), 1, 21), <<>>),
                Event(0, "close", <<0, 0, 0, 4, 1, 2, 3, 4>>, <<>>), Event(0, "stall", SubSeq(Record(Body(n, NFS, 3, 0)), 1, 30), <<>>),
                Event(0, "stall", <<128>>, <<>>) >>
Serve(c, i0) ==
  \E i \in {i0}, n \in {Len(h) + 1} :
  \E b \in {IF i <= 6 THEN Calls(n)[i] ELSE IF i <= 11 THEN Junk(n)[i - 6] ELSE <<>>} :
  /\ st = "serve" /\ conns[c] = "open"
  /\ h' = Append(h, IF i <= 11 THEN Event(c, "send", Record(b), TLCEval(Reaction(<<>>, b)).reply) ELSE [Finals(n)[i - 11] EXCEPT !.c = c])
  /\ conns' = [conns EXCEPT ![c] = IF i > 11 THEN "over" ELSE "open"]
  /\ UNCHANGED <<step, maps, st, pm>>
Enough == st = "serve" /\ Len(h) = 12 /\ st' = "done" /\ UNCHANGED <<step, maps, conns, pm, h>>

Init == step = 0 /\ maps = {} /\ st = "run" /\ pm = <<>> /\ h = <<>> /\ conns = [c \in 1..5 |-> "open"]
Pick(S) == RandomElement(S)
NextEx ==    \* every answer at every request
  \/ \E j \in 1..Len(Failures) : (j + step) % Shards = Shard /\ Talk(Failures[j])
  \/ Talk(Truth(1)) \/ Talk(Truth(0))
  \/ st = "serve" /\ Shard = 0 /\ Len(h) < 12 /\ Serve((Len(h) % 2) + 1, (Len(h) % 11) + 1)
  \/ Shard = 0 /\ Enough
NextRandom ==
  \/ \E w \in {Pick(1..40)}, j \in {Pick(1..Len(Failures))} : Talk(IF w = 1 THEN Failures[j] ELSE IF w < 10 /\ step \in {0, 2} THEN Truth(0) ELSE Truth(1))
  \/ st = "serve" /\ Len(h) < 12 /\ \E c \in {Pick({x \in 1..5 : conns[x] = "open" \/ x = 5})}, i \in {Pick(1..16)} :
       IF c = 5 THEN Serve(5, (i % 11) + 1) ELSE Serve(c, i)
  \/ Enough
Next == st \notin {"failed", "done"} /\ IF Random THEN NextRandom ELSE NextEx
Emit == /\ \/ st \in {"failed", "done"}
           \/ ~Random /\ st = "serve" /\ Shard # 0
        /\ CSVWrite("%1$s", <<ToJson([pm |-> pm, ev |-> h, ok |-> st # "failed"])>>, OutDir \o "/" \o IOEnv.SHARD)
        /\ FALSE
Spec == Init /\ [][Next \/ Emit]_vars

----------------------------------------------------------------------------
\* It serves only if both programs were registered, and when it fails no
\* registration is left, unless the portmapper did not answer.
Registered == st = "serve" => maps = {MOUNT, NFS}
Tidy == st = "failed" /\ maps # {} => Len(pm) > 0 /\ pm[Len(pm)].a \notin {Truth(0), Truth(1)}
NoResult == \A i \in 1..Len(h) : h[i].reply = <<>> \/ (Len(h[i].reply) <= 36 /\ SubSeq(h[i].reply, 9, 12) = U32(1))
=============================================================================
