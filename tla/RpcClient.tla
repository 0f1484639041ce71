----------------------------- MODULE RpcClient ------------------------------
(***************************************************************************)
(* A client on a connection whose other end may answer anything.           *)
(*                                                                         *)
(* Each Call writes one record - unless its arguments do not encode - and  *)
(* takes one record off the connection.  The call succeeds only if that    *)
(* record is a matching, successful, decodable reply.  Whatever the record *)
(* was, the client goes on with the one after it.                          *)
(*                                                                         *)
(* Transaction ids are the client's choice: an answer refers to the id of  *)
(* a call, or to some alteration of it, symbolically.                      *)
(***************************************************************************)
EXTENDS RpcMsg, Json, CSV, IOUtils, SequencesExt

CONSTANTS Random, MaxCalls
OutDir == IOEnv.OUT
Shard  == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)

VARIABLES n,      \* calls made so far
          ends,   \* the client's program and version
          inbox,  \* records that have arrived and were not taken yet
          live,   \* the stream is "up", "cut" (nothing will arrive any more), "torn" (a write
                  \* has failed), or "over" (of no interest any more)
          last,   \* the last call, for the invariants
          h
vars == <<n, ends, inbox, live, last, h>>

VM == <<255, 255, 255, 255>>
\* ------------------------------------------------------------------ calls
ProgVers == << <<U32(7), U32(1)>>, <<U32(100000), U32(2)>>, <<VM, VM>>, <<U32(0), U32(0)>>, <<<<128, 0, 0, 0>>, U32(3)>> >>
Procs == << U32(0), U32(1), VM, U32(22), <<128, 0, 0, 1>> >>
CallAuths == << NoAuth, <<U32(1), Pat(20, 3)>>, <<U32(0), Pat(1, 1)>>, <<U32(2), Pat(400, 2)>>, <<U32(6), Pat(7, 5)>>, <<VM, Pat(399, 9)>> >>
LongAuths == << <<U32(1), Pat(401, 3)>>, <<U32(0), Pat(1000, 1)>>, <<U32(1), Pat(404, 3)>> >>
\* Arguments: words that encode; or that do not, at once or after some.
ArgVals == << [mode |-> "ok", b |-> <<>>], [mode |-> "ok", b |-> U32(5)], [mode |-> "ok", b |-> Pat(12, 1)], [mode |-> "ok", b |-> Pat(400, 1)], [mode |-> "ok", b |-> Pat(1000, 1)] >>
BadArgs == << [mode |-> "fail", b |-> <<>>], [mode |-> "part", b |-> Pat(8, 2)] >>
\* What does not encode: nothing, the credential, the verifier, the arguments.
CallOf(i, bad) ==
  [proc |-> Procs[(i % Len(Procs)) + 1],
   cred |-> IF bad = 1 THEN LongAuths[(i % Len(LongAuths)) + 1] ELSE CallAuths[(i % Len(CallAuths)) + 1],
   verf |-> IF bad = 2 THEN LongAuths[(i % Len(LongAuths)) + 1] ELSE CallAuths[((i \div 2) % Len(CallAuths)) + 1],
   args |-> IF bad = 3 THEN BadArgs[(i % Len(BadArgs)) + 1] ELSE ArgVals[((i \div 3) % Len(ArgVals)) + 1]]
Encodable(c) == Len(c.cred[2]) <= 400 /\ Len(c.verf[2]) <= 400 /\ c.args.mode = "ok"
\* Everything of the record but the xid.
AfterXid(b) == SubSeq(b, 5, Len(b))
Request(c) == AfterXid(EncCall(U32(0), U32(2), ends[1], ends[2], c.proc, c.cred, c.verf, c.args.b))

\* ---------------------------------------------------------------- results
Pair == TStruct(<<Fld("a", TUint), Fld("s", TString(5)), Fld("o", TOpaque(-1)), Fld("f", TBool)>>)
ListEnv == [x \in {"list"} |-> TOpt(TStruct(<<Fld("x", TInt), Fld("next", TRef("list"))>>))]
ResultTypes == << [n |-> "void", t |-> TVoid], [n |-> "uint", t |-> TUint], [n |-> "string8", t |-> TString(8)],
                  [n |-> "pair", t |-> Pair], [n |-> "list", t |-> TRef("list")], [n |-> "hyper", t |-> THyper] >>
GoodResults == << <<>>, <<1, 2, 3, 4>>, Enc(<<>>, TString(8), Pat(7, 4), TRUE).b,
                  Enc(<<>>, Pair, <<U32(77), Pat(5, 2), Pat(6, 9), TRUE>>, TRUE).b,
                  <<0, 0, 0, 1, 0, 0, 0, 5, 0, 0, 0, 1, 255, 255, 255, 255, 0, 0, 0, 0>>, Pat(8, 4) >>

\* ---------------------------------------------------------------- answers
\* An answer: [x, of, b]: the record's first word is the xid of call `of`,
\* as it is ("is") or altered; b is what comes after it.  Short answers are
\* ("raw").
Alterations == <<"plus", "minus", "not", "swap", "high">>
Own(i, b) == [x |-> "is", of |-> i, b |-> b]
Verfs == << NoAuth, <<U32(2), Pat(12, 1)>>, <<U32(1), Pat(400, 2)>>, <<U32(3), Pat(1, 1)>> >>
Ok(v, res) == AfterXid(EncMsg(Success(U32(0), Verfs[v]))) \o res
Sts == <<U32(1), U32(3), U32(4), U32(5), U32(6), VM, <<128, 0, 0, 0>>, <<0, 1, 0, 0>> >>
Plain(r) == Ok(1, GoodResults[r])
\* Long results, and results that do not decode although there is much of them.
LongPair == TLCEval(Enc(<<>>, Pair, <<U32(78), Pat(4, 2), Pat(1000, 9), TRUE>>, TRUE).b)
LongList == TLCEval(FlattenSeq([i \in 1..60 |-> U32(1) \o U32(i)]) \o U32(0))
Cuts(b) == [i \in 1..6 |-> SubSeq(b, 1, Len(b) - <<1, 3, 4, 5, 8, 40>>[i])]
Str(k) == U32(k) \o Pat(k, 4) \o Pad(k)
Longs(r) ==
  CASE r = 2 -> <<>>
    [] r = 3 -> [i \in 1..6 |-> Str(<<9, 12, 33, 64, 100, 1000>>[i])] \o <<VM \o Pat(100, 1), U32(8) \o Pat(7, 1), <<128, 0, 0, 0>> \o Pat(64, 1)>>
    [] r = 4 -> <<LongPair>> \o Cuts(LongPair) \o <<U32(1) \o Str(6) \o Str(100) \o U32(1), U32(1) \o Str(1000) \o Str(100) \o U32(1),
                  U32(1) \o Str(5) \o VM \o Pat(200, 1), U32(1) \o Str(5) \o U32(201) \o Pat(200, 1) >>
    [] r = 5 -> <<LongList>> \o Cuts(LongList) \o <<SubSeq(LongList, 1, Len(LongList) - 4) \o U32(1)>>
    [] OTHER -> <<>>
\* Answers to a call expecting result type r, as [x, b] with `of` left open.
Is(b) == [x |-> "is", b |-> b]
Answers(r) ==
  LET good == Plain(r) IN
  <<Is(good)>>
  \o [v \in 1..4 |-> Is(Ok(v, GoodResults[r]))]
  \o [a \in 1..Len(Alterations) |-> [x |-> Alterations[a], b |-> good]]
  \* statuses that are not success, with and without a result after them
  \o [s \in 1..Len(Sts) |-> Is(AfterXid(EncMsg(Status(U32(0), Sts[s]))))]
  \o [s \in 1..Len(Sts) |-> Is(AfterXid(EncMsg(Status(U32(0), Sts[s]))) \o GoodResults[r])]
  \o <<Is(AfterXid(EncMsg(Mismatch(U32(0), U32(1), U32(3))))), Is(AfterXid(EncMsg(Mismatch(U32(0), U32(1), U32(3)))) \o GoodResults[r])>>
  \o <<Is(AfterXid(EncMsg(Denied(U32(0), U32(2), U32(2))))), Is(AfterXid(EncMsg(Denied(U32(0), U32(2), U32(2)))) \o good)>>
  \o [s \in 1..5 |-> Is(AfterXid(EncMsg(AuthError(U32(0), U32(s)))) \o GoodResults[r])]
  \* a call instead of a reply
  \o <<Is(AfterXid(EncCall(U32(0), U32(2), U32(7), U32(1), U32(0), NoAuth, NoAuth, <<>>))), Is(U32(2) \o SubSeq(good, 5, Len(good)))>>
  \* cut short, or one word different
  \o [k \in 1..Len(good) |-> Is(SubSeq(good, 1, k - 1))]
  \o FlattenSeq([p \in 1..(Len(good) \div 4) |->
        [w \in 1..6 |-> Is([good EXCEPT ![4 * p - 3] = (<<0, 0, 255, 128, 0, 1>>)[w], ![4 * p - 2] = (<<0, 0, 255, 0, 0, 0>>)[w],
                                        ![4 * p - 1] = (<<0, 0, 255, 0, 1, 0>>)[w], ![4 * p] = (<<0, 1, 255, 0, 145, 0>>)[w]])]])
  \* long results; results cut short behind each kind of verifier
  \o [k \in 1..Len(Longs(r)) |-> Is(Ok(1, Longs(r)[k]))] \o [k \in 1..Len(Longs(r)) |-> Is(Ok(3, Longs(r)[k]))]
  \o (IF r = 1 THEN <<>> ELSE FlattenSeq([v \in 1..3 |-> [k \in 1..3 |-> Is(Ok(v + 1, SubSeq(GoodResults[r], 1, Len(GoodResults[r]) - <<1, 2, 4>>[k])))]]))
  \o [k \in 1..4 |-> [x |-> "raw", b |-> SubSeq(<<0, 0, 0>>, 1, k - 1)]]
\* (computed once, and kept in TLC's registers)
ASSUME TLCSet(1, TLCEval([r \in 1..Len(ResultTypes) |-> TLCEval(Answers(r))]))
ASSUME TLCSet(2, TLCEval([r \in 1..Len(ResultTypes) |-> TLCEval(Plain(r))]))
AllAnswers == TLCGet(1)
PlainOf(r) == TLCGet(2)[r]

\* --------------------------------------------------------------- outcomes
\* Of call i, expecting type T, that takes answer a.
\* ok; res: the encoding of the result; touch: the result may be touched although the call fails;
\* lax: success and failure are both in order
RawOk(r, b) == TLCEval(IF r = 5 THEN Dec(ListEnv, ResultTypes[r].t, b, 1) ELSE Dec(<<>>, ResultTypes[r].t, b, 1))
EncRes(r, v) == (IF r = 5 THEN Enc(ListEnv, ResultTypes[r].t, v, TRUE) ELSE Enc(<<>>, ResultTypes[r].t, v, TRUE)).b
Lose(touch) == [ok |-> FALSE, res |-> <<>>, touch |-> touch, lax |-> FALSE]
Outcome1(i, r, a) ==
  IF a.x # "is" \/ a.of # i THEN Lose(FALSE)
  ELSE LET rec == TLCEval(U32(0) \o a.b)
           d == TLCEval(Dec(RpcEnv, Msg, rec, 1))
       IN  IF ~d.ok THEN Lose(FALSE)
           ELSE IF d.v[2].d # U32(1) THEN Lose(FALSE)
           ELSE IF d.v[2].a[1].d # U32(0) THEN Lose(FALSE)
           ELSE IF d.v[2].a[1].a[1][2].d # SUCCESS THEN Lose(FALSE)
           ELSE LET q == TLCEval(RawOk(r, TLCEval(SubSeq(rec, d.p, Len(rec))))) IN
                IF ~q.ok THEN [Lose(TRUE) EXCEPT !.lax = FALSE]
                ELSE [ok |-> TRUE, res |-> EncRes(r, q.v), touch |-> TRUE,
                      lax |-> \/ EncMsg(d.v) # SubSeq(rec, 1, d.p - 1) \/ q.lax \/ q.p # Len(rec) - d.p + 2
                              \/ d.v[2].a[1].a[1][1][1] \notin {U32(k) : k \in 0..3}]

\* ------------------------------------------------------------------ steps
\* what the other end does when a request (or the attempt at one) is made:
\*   recs: the records that arrive; end: how the stream goes on
\* (bound by \E so that TLC evaluates - and draws - each of them once)
Take1(i0, r0, c0, recs0, end, cut) ==
  \E i \in {i0}, r \in {r0}, c \in {c0}, recs \in {recs0} :
  \E okreq \in {Encodable(c)}, box \in {inbox \o recs} :
  \E req \in {IF okreq THEN Request(c) ELSE <<>>}, some \in {okreq /\ box # <<>>} :
  \E o \in {IF ~some \/ end \in {"wfail", "cut"} THEN Lose(FALSE) ELSE Outcome1(i, r, box[1])} :
      /\ n' = i
      /\ inbox' = IF some /\ end # "wfail" THEN Tail(box) ELSE box
      /\ live' = CASE live \in {"cut", "torn"} -> "over"
                   [] ~okreq \/ (some /\ end = "") -> "up"
                   [] end = "wfail" -> "torn"
                   [] OTHER -> "cut"
      /\ last' = [i |-> i, r |-> r, ok |-> o.ok, got |-> IF some THEN box[1] ELSE <<>>, res |-> o.res]
      /\ h' = Append(h, [c |-> c, rt |-> ResultTypes[r].n, req |-> req, write |-> okreq,
                         recs |-> IF okreq THEN recs ELSE <<>>, end |-> IF okreq THEN end ELSE "", cut |-> cut,
                         \* on a stream that broke a client need not write, and need not succeed
                         may |-> live # "up",
                         ok |-> o.ok, res |-> o.res, touch |-> o.touch, lax |-> o.lax \/ live # "up"])
      /\ UNCHANGED ends

Bind(a, i) == [x |-> a.x, of |-> i, b |-> a.b]
PlainRec(i, r) == Own(i, PlainOf(r))

\* What may follow the records of an exchange, or stand in their place.
\* nonfinal: a fragment that is not the last; claim: a mark for more than arrives
Ends == <<"eof", "err", "eofdata", "nonfinal", "nonfinal0", "claim", "halfmark", "wfail">>

Init == /\ n = 0 /\ inbox = <<>> /\ live = "up" /\ last = <<>> /\ h = <<>>
        /\ IF Random THEN ends = RandomElement({ProgVers[i] : i \in 1..Len(ProgVers)})
           ELSE ends \in {ProgVers[i] : i \in {j \in 1..5 : TRUE}}

\* Enumerated: every answer to the first call, then a plain exchange.
Index(r, k) == r * 31 + k
NextEx ==
  \/ /\ n = 0
     /\ \E r \in 1..Len(ResultTypes) :
        \/ \E k \in 1..Len(AllAnswers[r]) :
             /\ ends = ProgVers[(Index(r, k) % 5) + 1]
             /\ Index(r, k) % Shards = Shard
             /\ Take1(1, r, CallOf(Index(r, k), 0), <<Bind(AllAnswers[r][k], 1)>>, "", Index(r, k) % 5)
        \/ /\ r = (Shard % 6) + 1
           /\ \/ \E bad \in 1..3 : \E k \in 0..3 : ends = ProgVers[(k % 5) + 1] /\ Take1(1, r, CallOf(k, bad), <<>>, "", 0)
              \/ \E e \in 1..Len(Ends) : \E k \in 0..4 : ends = ProgVers[k + 1] /\ Take1(1, r, CallOf(k, 0), <<>>, Ends[e], k)
              \* the answer arrives whole with the end of the stream, or is followed by another
              \/ \E k \in 0..4 : ends = ProgVers[k + 1] /\ Take1(1, r, CallOf(k, 0), <<PlainRec(1, r)>>, "eofdata", k)
              \/ \E k \in 0..4 : ends = ProgVers[k + 1] /\ Take1(1, r, CallOf(k, 0), <<PlainRec(1, r), PlainRec(1, r)>>, "", k)
  \/ /\ n > 0 /\ live \in {"cut", "torn"}
     /\ LET r == (n % Len(ResultTypes)) + 1 IN
        Take1(n + 1, r, CallOf(n + Len(h[1].req), 0), IF live = "cut" THEN <<>> ELSE <<PlainRec(n + 1, r)>>,
              IF live = "cut" THEN "cut" ELSE "", n % 5)
  \/ /\ n > 0 /\ n < MaxCalls /\ live = "up"
     /\ LET r == ((n + Len(h[1].recs)) % Len(ResultTypes)) + 1 IN
        Take1(n + 1, r, CallOf(n + Len(h[1].req), 0), <<PlainRec(n + 1, r)>>, "", n % 5)

Pick(S) == RandomElement(S)
NextRandom ==
  \E i \in {n + 1}, r \in {Pick(1..Len(ResultTypes))}, w \in {Pick(1..20)}, s \in {Pick(0..200)}, cut \in {Pick(0..4)} :
  \E r2 \in {IF w = 13 THEN Pick(1..Len(ResultTypes)) ELSE r}, k0 \in {Pick(1..100000)},
     of \in {Pick(1..i)}, bad \in {IF w \in {14, 15} THEN Pick(1..3) ELSE 0}, e \in {Ends[Pick(1..Len(Ends))]} :
  \* (an altered xid may be that of a later call: it is only sent where this call takes it)
  \E any \in {LET a == AllAnswers[r2][(k0 % Len(AllAnswers[r2])) + 1]
               IN  Bind(IF inbox # <<>> /\ a.x \in Range(Alterations) THEN Is(a.b) ELSE a, i)} :
  \E recs \in { CASE w <= 6 -> <<PlainRec(i, r)>>
                  [] w <= 13 -> <<any>>
                  [] w <= 15 -> <<>>
                  [] w = 16 -> <<Own(of, PlainOf(r)), PlainRec(i, r)>>
                  [] w = 17 -> <<Own(of, PlainOf(r))>>
                  [] w = 18 /\ inbox # <<>> -> <<>>
                  [] w = 19 /\ n > 4 -> <<>>
                  [] OTHER -> <<any, PlainRec(i, r)>> } :
     CASE live = "cut" -> Take1(i, r, CallOf(s, 0), <<>>, "cut", cut)
       [] live = "torn" -> Take1(i, r, CallOf(s, 0), <<PlainRec(i, r)>>, "", cut)
       [] OTHER -> Take1(i, r, CallOf(s, bad), recs, IF w = 19 /\ n > 4 THEN e ELSE "", cut)
Complete == n > 0 /\ (live = "over" \/ (n >= MaxCalls /\ live = "up"))
Next == ~Complete /\ IF Random THEN NextRandom ELSE NextEx
Emit == /\ Complete
        /\ CSVWrite("%1$s", <<ToJson([prog |-> ends[1], vers |-> ends[2], steps |-> h])>>, OutDir \o "/" \o IOEnv.SHARD)
        /\ FALSE
Spec == Init /\ [][Next \/ Emit]_vars

----------------------------------------------------------------------------
\* A call succeeds only on a reply to itself that says success and carries its result.
OnlyOwn == last # <<>> /\ last.ok =>
             /\ last.got.x = "is" /\ last.got.of = last.i
             /\ LET d == TLCEval(Dec(RpcEnv, Msg, U32(0) \o last.got.b, 1)) IN
                d.ok /\ d.v[2].d = U32(1) /\ d.v[2].a[1].d = U32(0) /\ d.v[2].a[1].a[1][2].d = SUCCESS
\* Every plain exchange with nothing left over succeeds, whatever went before.
InStep == [][ LET e == h'[Len(h')] IN
              (n' = n + 1 /\ inbox = <<>> /\ Encodable(e.c) /\ e.end = "" /\ e.recs # <<>> /\
                 \E r \in 1..Len(ResultTypes) : e.rt = ResultTypes[r].n /\ e.recs[1] = PlainRec(n', r))
              => last'.ok ]_vars
=============================================================================
