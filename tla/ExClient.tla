------------------------------ MODULE ExClient ------------------------------
(***************************************************************************)
(* The example client (example/client): a conversation with a portmapper,  *)
(* a mount service and an NFS service, each of which may answer anything.  *)
(*                                                                         *)
(* It asks the portmapper where MOUNT version 3 is, mounts "/" there, asks *)
(* where NFS version 3 is, looks up "foo" in the root and "bar" in foo, and *)
(* renames root/foo to bar/foonew.  Every handle it uses is one it was     *)
(* given.  The first answer that is not a success ends it, unsuccessfully, *)
(* and nothing more is sent; the answer to the last request only has to be *)
(* an answer.                                                              *)
(***************************************************************************)
EXTENDS RpcMsg, Nfs3, Json, CSV, IOUtils

CONSTANTS Random
OutDir == IOEnv.OUT
Shard  == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)
Turn    == atoi(IOEnv.ROT)

VARIABLES step,   \* how many requests have been answered
          know,   \* the handles the services gave: root, foo, bar
          st,     \* "run", "ok" or "failed"
          h
vars == <<step, know, st, h>>

NfsEnv == TLCEval([x \in {Nfs3Defs[i].n : i \in 1..Len(Nfs3Defs)} |->
                    (Nfs3Defs[CHOOSE i \in 1..Len(Nfs3Defs) : Nfs3Defs[i].n = x]).t])
E(t, v) == Enc(NfsEnv, t, v, TRUE).b
AfterXid(b) == SubSeq(b, 5, Len(b))

Steps == 6
Service == <<"pmap", "mount", "pmap", "nfs", "nfs", "nfs">>
Results == <<TUint, TRef("mountres3"), TUint, TRef("LOOKUP3res"), TRef("LOOKUP3res"), TRef("RENAME3res")>>
Foo == <<102, 111, 111>>
Bar == <<98, 97, 114>>
FooNew == <<102, 111, 111, 110, 101, 119>>
\* An empty UNIX credential: stamp, machine name, uid, gid, gids.
Unix == <<U32(1), [i \in 1..20 |-> 0]>>
Mapping(prog, port) == U32(prog) \o U32(3) \o U32(6) \o port
C(prog, vers, proc, cred, args) == AfterXid(EncCall(U32(0), U32(2), U32(prog), U32(vers), U32(proc), cred, NoAuth, args))
Request(k) ==
  CASE k = 1 -> C(100000, 2, 3, NoAuth, Mapping(100005, U32(0)))
    [] k = 2 -> C(100005, 3, 1, NoAuth, E(TRef("dirpath3"), <<47>>))
    [] k = 3 -> C(100000, 2, 3, NoAuth, Mapping(100003, U32(0)))
    [] k = 4 -> C(100003, 3, 3, Unix, E(TRef("LOOKUP3args"), << << <<know.root>>, Foo>> >>))
    [] k = 5 -> C(100003, 3, 3, Unix, E(TRef("LOOKUP3args"), << << <<know.foo>>, Bar>> >>))
    [] k = 6 -> C(100003, 3, 14, Unix, E(TRef("RENAME3args"), << << <<know.root>>, Foo>>, << <<know.bar>>, FooNew>> >>))

\* ---------------------------------------------------------------- answers
\* [x, b, hole, end]: the record's first word is the call's xid ("is") or another;
\* b comes after it; hole: the port of that service follows b; end: what
\* happens instead of an answer ("": there is one).
Ans(x, b, hole, end) == [x |-> x, b |-> b, hole |-> hole, end |-> end]
Yes(res) == AfterXid(EncMsg(Success(U32(0), NoAuth))) \o res
Handles == <<Pat(32, 1), Pat(64, 2), Pat(1, 3), <<>>, Pat(5, 4), [i \in 1..64 |-> 0], Pat(28, 6)>>
Flavors == << <<>>, <<U32(1)>>, <<U32(0), U32(1)>>, <<U32(390003), U32(390004), U32(1)>> >>
Attr(i) == <<U32(2), U32(493), U32(i), U32(0), U32(7), Pat(8, i), Pat(8, i + 1), <<U32(8), U32(i)>>, Pat(8, 9), Pat(8, i + 2), <<U32(1), U32(2)>>, <<U32(3), U32(4)>>, <<U32(5), U32(i)>> >>
Post(i) == IF i % 2 = 0 THEN [d |-> FALSE, a |-> << <<>> >>] ELSE [d |-> TRUE, a |-> <<Attr(i)>>]
Pre(i)  == IF i % 2 = 0 THEN [d |-> FALSE, a |-> << <<>> >>] ELSE [d |-> TRUE, a |-> << <<Pat(8, i), <<U32(i), U32(2)>>, <<U32(3), U32(i)>> >> >>]
Wcc(i)  == <<Pre(i), Post(i \div 2)>>
Union(d, v) == [d |-> U32(d), a |-> <<v>>]
Hole(k) == IF k = 1 THEN "mount" ELSE IF k = 3 THEN "nfs" ELSE ""
GoodAns(k, i) ==
  CASE k \in {1, 3} -> Ans("is", Yes(<<>>), Hole(k), "")
    [] k = 2 -> Ans("is", Yes(E(Results[2], Union(0, <<Handles[(i % 7) + 1], Flavors[((i \div 2) % 4) + 1]>>))), "", "")
    [] k \in {4, 5} -> Ans("is", Yes(E(Results[k], Union(0, << <<Handles[((i + k) % 7) + 1]>>, Post(i), Post(i \div 2)>>))), "", "")
    [] k = 6 -> IF i % 3 = 0 THEN Ans("is", Yes(E(Results[6], Union(13, <<Wcc(i), Wcc(i + 1)>>))), "", "")
                ELSE Ans("is", Yes(E(Results[6], Union(0, <<Wcc(i + 1), Wcc(i)>>))), "", "")
Goods == 14
\* A service's own refusal.
Refusals(k) ==
  CASE k = 2 -> [j \in 1..4 |-> Ans("is", Yes(E(Results[2], [d |-> U32(<<13, 2, 10006, 1>>[j]), a |-> << <<>> >>])), "", "")]
    [] k \in {4, 5} -> [j \in 1..5 |-> Ans("is", Yes(E(Results[k], Union(<<2, 13, 70, 10001, 10008>>[j], <<Post(j)>>))), "", "")]
    [] k \in {1, 3} -> <<Ans("is", Yes(U32(0)), "", ""), Ans("is", Yes(U32(65536)), "", "")>>
    [] OTHER -> <<>>
Denials(k) ==
  LET g == GoodAns(k, 1).b
      res == SubSeq(g, 21, Len(g)) IN
  [s \in 1..4 |-> Ans("is", AfterXid(EncMsg(Status(U32(0), U32(<<1, 3, 4, 5>>[s])))) \o (IF s % 2 = 0 THEN res ELSE <<>>), IF s % 2 = 0 THEN Hole(k) ELSE "", "")]
  \o <<Ans("is", AfterXid(EncMsg(Mismatch(U32(0), U32(1), U32(2)))), "", ""),
       Ans("is", AfterXid(EncMsg(Denied(U32(0), U32(2), U32(2)))), "", ""),
       Ans("is", AfterXid(EncMsg(AuthError(U32(0), U32(5)))), "", ""),
       Ans("other", g, Hole(k), ""),
       Ans("is", SubSeq(g, 1, Len(g) - 1), "", ""), Ans("is", SubSeq(g, 1, Len(g) - 4), "", ""), Ans("is", SubSeq(g, 1, 20), "", ""), Ans("is", <<>>, "", ""),
       Ans("is", U32(0) \o SubSeq(g, 5, Len(g)), Hole(k), "")>>
  \o [e \in 1..4 |-> Ans("is", g, Hole(k), <<"eof", "nonfinal", "torn", "halfmark">>[e])]
  \* A port that is too large by a multiple of 65536: nobody is there.
  \o (IF k \in {1, 3} THEN [e \in 1..2 |-> Ans("is", g, Hole(k), <<"port65536", "port2to31">>[e])] ELSE <<>>)
Bads(k) == Refusals(k) \o Denials(k)
ASSUME TLCSet(1, TLCEval([k \in 1..Steps |-> TLCEval(Bads(k))]))
ASSUME TLCSet(2, TLCEval([k \in 1..Steps |-> TLCEval([i \in 1..Goods |-> TLCEval(GoodAns(k, i))])]))

\* --------------------------------------------------------------- outcomes
\* What the client makes of an answer to request k: it does not know which of
\* the above it is.
Understand(k, a) ==
  IF a.x # "is" \/ a.end # "" THEN [ok |-> FALSE, fh |-> <<>>]
  ELSE LET rec == TLCEval(U32(0) \o a.b \o (IF a.hole = "" THEN <<>> ELSE U32(1024)))
           d == TLCEval(Dec(RpcEnv, Msg, rec, 1)) IN
       IF ~d.ok THEN [ok |-> FALSE, fh |-> <<>>]
       ELSE IF d.v[2].d # U32(1) THEN [ok |-> FALSE, fh |-> <<>>]
       ELSE IF d.v[2].a[1].d # U32(0) THEN [ok |-> FALSE, fh |-> <<>>]
       ELSE IF d.v[2].a[1].a[1][2].d # SUCCESS THEN [ok |-> FALSE, fh |-> <<>>]
       ELSE LET r == TLCEval(Dec(NfsEnv, Results[k], rec, d.p)) IN
            IF ~r.ok THEN [ok |-> FALSE, fh |-> <<>>]
            ELSE CASE k \in {1, 3} -> [ok |-> a.hole # "", fh |-> <<>>]    \* nobody is at any other port
                   [] k = 6 -> [ok |-> TRUE, fh |-> <<>>]
                   [] OTHER -> IF r.v.d # U32(0) THEN [ok |-> FALSE, fh |-> <<>>]
                               ELSE [ok |-> TRUE, fh |-> IF k = 2 THEN r.v.a[1][1] ELSE r.v.a[1][1][1]]

Answer(k0, a0) ==
  \E k \in {k0}, a \in {a0} : \E u \in {Understand(k, a)} :
  /\ step' = k
  /\ know' = CASE ~u.ok -> know
               [] k = 2 -> [know EXCEPT !.root = u.fh]
               [] k = 4 -> [know EXCEPT !.foo = u.fh]
               [] k = 5 -> [know EXCEPT !.bar = u.fh]
               [] OTHER -> know
  /\ st' = IF ~u.ok THEN "failed" ELSE IF k = Steps THEN "ok" ELSE "run"
  /\ h' = Append(h, [svc |-> Service[k], req |-> Request(k), a |-> a])

Init == step = 0 /\ know = [root |-> <<>>, foo |-> <<>>, bar |-> <<>>] /\ st = "run" /\ h = <<>>
\* Enumerated: every bad answer at every step, after good ones; and good ones throughout.
NextEx ==
  /\ st = "run"
  /\ LET k == step + 1 IN
     \/ /\ k # 2
        /\ Answer(k, TLCGet(2)[k][((Turn + k * 5 + Len(know.root) + Len(know.foo)) % Goods) + 1])
     \/ /\ k = 2
        /\ \E i \in 1..Goods : i % Shards = Shard /\ Answer(k, TLCGet(2)[2][i])
     \/ /\ k = 2 \/ Len(know.root) = 32 \/ (k = 1 /\ Shard = 0)
        /\ \E j \in 1..Len(TLCGet(1)[k]) : (k # 2 \/ j % Shards = Shard) /\ Answer(k, TLCGet(1)[k][j])
Pick(S) == RandomElement(S)
NextRandom ==
  /\ st = "run"
  /\ \E k \in {step + 1}, w \in {Pick(1..12)}, i \in {Pick(1..Goods)}, j \in {Pick(1..1000)} :
     Answer(k, IF w = 1 THEN TLCGet(1)[k][(j % Len(TLCGet(1)[k])) + 1] ELSE TLCGet(2)[k][i])
Next == IF Random THEN NextRandom ELSE NextEx
Emit == /\ st # "run"
        /\ CSVWrite("%1$s", <<ToJson([steps |-> h, ok |-> st = "ok"])>>, OutDir \o "/" \o IOEnv.SHARD)
        /\ FALSE
Spec == Init /\ [][Next \/ Emit]_vars

----------------------------------------------------------------------------
\* The client goes to the services in order, and to the end only if all said yes.
InOrder == \A i \in 1..Len(h) : h[i].svc = Service[i] /\ i <= Steps
Success6 == st = "ok" => step = Steps
Stops == [][st = "run"]_vars
\* It names no handle that no answer so far contained.
Has(b, s) == \E i \in 0..(Len(b) - Len(s)) : SubSeq(b, i + 1, i + Len(s)) = s
Given == /\ step >= 2 /\ st = "run" => Has(h[2].a.b, know.root)
         /\ step >= 4 /\ st = "run" => Has(h[4].a.b, know.foo)
         /\ step >= 5 /\ st = "run" => Has(h[5].a.b, know.bar)
=============================================================================
