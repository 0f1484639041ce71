------------------------------ MODULE E2EPlan -------------------------------
(***************************************************************************)
(* Plans of what clients, other peers, handlers and connections do to a    *)
(* server, end to end.  What then happens is up to the code; RpcE2E says   *)
(* which of it is right.  A plan is                                        *)
(*   tr:   "pipe" or "tcp"         split: the largest piece read, 0: any   *)
(*   bar:  the first bar invocations wait for one another                  *)
(*   oth:  this invocation waits until the other clients are done, 0: none *)
(*   hs:   what invocations do, in turn: [r: result, 0: one that does not  *)
(*         encode; w: how to wait]                                         *)
(*   good: clients   [c, prog, vers, calls: <<[x, proc, k, a]>>, cut]      *)
(*   multi: peers that have many calls open  [c, calls: <<[k, a, h]>>, cut]*)
(*   raw:  peers that send anything  [c, items: <<[t, k, a, h, rep]>>, end]*)
(* cut says when a connection fails: after n bytes written ("w") or read   *)
(* ("r"), after a time ("t") or never ("").                                *)
(***************************************************************************)
EXTENDS E2EVals, CSV

CONSTANT Kinds   \* of plans
GoodIds  == 1..40
MultiIds == 41..46
RawIds   == 47..56
Shard == IOEnv.SHARD

VARIABLES plan, done
NRnd == 2000

At(s, i) == s[(i % Len(s)) + 1]
PVs == TLCEval(SetToSeq({<<AllProcs[k].reg[1], AllProcs[k].reg[2]>> : k \in 1..Len(AllProcs)}))
ASSUME TLCSet(21, TLCEval([i \in 1..Len(PVs) |-> [prog |-> PVs[i][1], vers |-> PVs[i][2],
         ks |-> SetToSeq({k \in 1..Len(AllProcs) : AllProcs[k].reg[1] = PVs[i][1] /\ AllProcs[k].reg[2] = PVs[i][2]})]]))
Services == TLCGet(21)
\* All pairs of a procedure and an argument, in a mixed order.
ASSUME TLCSet(22, TLCEval(Flat([k \in 1..Len(AllProcs) |-> [a \in 1..Min2(6, Len(Args(k))) |-> [k |-> k, a |-> a]]])))
Pairs == TLCGet(22)
NoProc == <<77, 77, 77, 77>>
Header(x, k) == EncCall(x, U32(2), AllProcs[k].reg[1], AllProcs[k].reg[2], AllProcs[k].reg[3], NoAuth, NoAuth, <<>>)

\* r: random numbers; b: where to start.
Cut(r, b) == CASE r[b] % 4 # 0 -> [d |-> "", n |-> 0]
               [] OTHER -> [d |-> At(<<"w", "r", "t", "r">>, r[b + 1]), n |-> At(<<r[b + 2] % 30, r[b + 2] % 120, r[b + 2] % 2000>>, r[b + 3])]
CallOf(r, b, s) ==
  LET k == At(s.ks, r[b])  w == r[b + 1] % 12 IN
  CASE w = 0 -> [x |-> "noproc", proc |-> NoProc, k |-> k, a |-> 1]
    [] w = 1 /\ BadArgs(k) # <<>> -> [x |-> "badarg", proc |-> AllProcs[k].reg[3], k |-> k, a |-> (r[b + 2] % Len(BadArgs(k))) + 1]
    [] w = 2 /\ Cuts(k) # <<>> -> [x |-> "garbage", proc |-> AllProcs[k].reg[3], k |-> k, a |-> (r[b + 2] % Len(Cuts(k))) + 1]
    [] OTHER -> [x |-> "ok", proc |-> AllProcs[k].reg[3], k |-> k, a |-> (r[b + 2] % Len(Args(k))) + 1]
GoodClient(r, c) ==
  LET b == 30 * c
      s == At(Services, r[b])
      other == r[b + 1] % 12 = 0   \* a program or version that is not there
      calls == TLCEval([i \in 1..(1 + (r[b + 2] % 5)) |-> CallOf(r, b + 4 + 3 * i, s)])
  IN  [c |-> c, prog |-> IF other /\ r[b + 3] % 2 = 0 THEN NoProc ELSE s.prog, vers |-> IF other THEN NoProc ELSE s.vers,
       calls |-> IF other THEN [i \in 1..Len(calls) |-> [calls[i] EXCEPT !.x = "noproc"]] ELSE calls, cut |-> Cut(r, b + 24)]
MultiPeer(r, c) ==
  LET b == 30 * c IN
  [c |-> c, cut |-> Cut(r, b + 24),
   calls |-> [i \in 1..(2 + (r[b] % 6)) |-> LET q == At(Pairs, r[b + i] * 7 + i) IN [k |-> q.k, a |-> q.a, h |-> Header(<<r[b + 20] % 256, c, 0, i>>, q.k)]]]
Item(r, b, c, i) ==
  LET q == At(Pairs, r[b] * 3 + r[b + 1])
      x == <<c, 0, r[b] % 256, i>>
      reg == AllProcs[q.k].reg
      g(m, rep) == [t |-> "bytes", k |-> 0, a |-> 0, h |-> m, rep |-> rep]
  IN  CASE r[b + 1] % 12 < 6 -> [t |-> "call", k |-> q.k, a |-> q.a, h |-> Header(x, q.k), rep |-> TRUE]
        [] r[b + 1] % 12 = 6 -> g(SubSeq(Header(x, q.k), 1, r[b + 2] % 40), FALSE)
        [] r[b + 1] % 12 = 7 -> g(EncMsg(Success(x, NoAuth)), FALSE)
        [] r[b + 1] % 12 = 8 -> g(EncCall(x, U32(3), reg[1], reg[2], reg[3], NoAuth, NoAuth, <<>>), TRUE)
        [] r[b + 1] % 12 = 9 -> g(EncCall(x, U32(2), reg[1], reg[2], NoProc, NoAuth, NoAuth, <<>>), TRUE)
        [] r[b + 1] % 12 = 10 /\ Cuts(q.k) # <<>> -> g(Header(x, q.k) \o At(Cuts(q.k), r[b + 2]), TRUE)
        [] OTHER -> g(Pat(r[b + 2] % 24, r[b]), FALSE)
RawPeer(r, c) ==
  LET b == 30 * c IN
  [c |-> c, items |-> [i \in 1..(1 + (r[b] % 6)) |-> Item(r, b + 3 * i, c, i)],
   end |-> At(<<"hang", "close", "read", "fragment", "partial", "hang", "read">>, r[b + 1])]
First(g) == g.calls[1].x = "ok" /\ g.cut.d = ""
Handler(r, b) == [r |-> IF r[b] % 9 = 0 THEN 0 ELSE 1 + ((r[b] \div 9) % 50), w |-> At(<<0, 0, 1, 2>>, r[b + 1])]
Mixed(r) ==
  LET good == TLCEval([i \in 1..(2 + (r[2] % 5)) |-> GoodClient(r, i)])
      bar == IF r[3] % 2 = 0 THEN Cardinality({i \in 1..Len(good) : First(good[i])}) ELSE 0
  IN  [tr |-> IF r[1] % 3 = 0 THEN "tcp" ELSE "pipe", split |-> At(<<0, 1, 3, 1000, 0, 0>>, r[4]), bar |-> bar,
       oth |-> IF r[5] % 2 = 0 THEN bar + 1 + (r[6] % 4) ELSE 0,
       hs |-> [i \in 1..7 |-> Handler(r, 5 + 2 * i)], good |-> good,
       multi |-> [i \in 1..(r[20] % 3) |-> MultiPeer(r, 40 + i)],
       raw |-> [i \in 1..(r[21] % 4) |-> RawPeer(r, 46 + i)]]
\* Many clients at once, all of whose calls wait for one another.
Crowd(r) ==
  LET n == Min2(40, Len(Pairs))
      good == TLCEval([i \in 1..n |->
                LET q == At(Pairs, r[2] + i) IN
                [c |-> i, prog |-> AllProcs[q.k].reg[1], vers |-> AllProcs[q.k].reg[2], cut |-> [d |-> "", n |-> 0],
                 calls |-> <<[x |-> "ok", proc |-> AllProcs[q.k].reg[3], k |-> q.k, a |-> q.a]>>]])
  IN  [tr |-> IF r[1] % 2 = 0 THEN "tcp" ELSE "pipe", split |-> 0, bar |-> n, oth |-> 0, hs |-> [i \in 1..7 |-> Handler(r, 5 + 2 * i)],
       good |-> good, multi |-> <<>>, raw |-> [i \in 1..(r[21] % 3) |-> RawPeer(r, 46 + i)]]
PlanOf(r) == IF "crowd" \in Kinds /\ r[7] % 8 = 0 THEN Crowd(r) ELSE Mixed(r)

Init == plan = <<>> /\ done = FALSE
Next == /\ ~done /\ done' = TRUE
        \* (depends on the state, so that TLC draws anew for every behaviour)
        /\ \E r \in {TLCEval([i \in 1..NRnd |-> RandomElement(1..(IF done THEN 1 ELSE 99999))])} : \E p \in {TLCEval(PlanOf(r))} :
              plan' = p /\ CSVWrite("%1$s", <<ToJson(p)>>, IOEnv.OUT \o "/" \o Shard)
Spec == Init /\ [][Next]_<<plan, done>>

\* What makes a plan sound: no wait in it is for ever.
Sound ==
  done => LET p == plan IN
    /\ p.bar <= Cardinality({i \in 1..Len(p.good) : First(p.good[i])})
    /\ p.oth = 0 \/ p.oth > p.bar
    /\ \A i \in 1..Len(p.good) : p.good[i].c \in GoodIds /\ \A j \in 1..Len(p.good[i].calls) :
         LET q == p.good[i].calls[j] IN (q.x = "ok") = (<<p.good[i].prog, p.good[i].vers, q.proc>> \in Regs /\ q.x \notin {"badarg", "garbage"})
=============================================================================
