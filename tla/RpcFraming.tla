----------------------------- MODULE RpcFraming -----------------------------
(***************************************************************************)
(* How a server reads its byte stream: the transport hands over the stream *)
(* in pieces of any size, and may break off anywhere.  The reader collects *)
(* a mark, then the record that the mark announces, and acts on it.        *)
(***************************************************************************)
EXTENDS RpcMsg, Json, CSV, IOUtils, SequencesExt

CONSTANTS Random,      \* draw pieces, rather than enumerate them
          TwoCuts      \* streams up to this length get every pair of cuts
OutDir == IOEnv.OUT
Shard  == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)

VARIABLES sid,     \* which stream arrives
          pos,     \* how many of its bytes have
          pieces,  \* in which pieces (0: a read of no bytes)
          got,     \* bytes of the mark or record being collected
          need,    \* bytes that are still wanted for it
          what,    \* "mark", "record", or "stopped"
          acted,   \* records the server acted on
          ended    \* how the stream ended ("": it has not)
vars == <<sid, pos, pieces, got, need, what, acted, ended>>

\* ---------------------------------------------------------------- streams
Reg == << [prog |-> U32(7), vers |-> U32(1), proc |-> U32(0), kind |-> "echo", id |-> 1] >>
GoodCall(x, args) == Record(EncCall(U32(x), U32(2), U32(7), U32(1), U32(0), NoAuth, NoAuth, args))
Elsewhere(x)  == Record(EncCall(U32(x), U32(2), U32(8), U32(1), U32(0), <<U32(1), Pat(5, 1)>>, NoAuth, <<>>))
Wrong(x)      == Record(EncCall(U32(x), U32(3), U32(7), U32(1), U32(0), NoAuth, NoAuth, <<>>))
ReplyRec      == Record(EncMsg(Success(U32(9), NoAuth)))
ShortCall         == Record(SubSeq(EncCall(U32(8), U32(2), U32(7), U32(1), U32(0), NoAuth, NoAuth, <<>>), 1, 30))
Garbage       == Record(Pat(7, 3))
Empty         == Mark(0)
NonFinal(b)   == <<0, 0, 0, Len(b)>> \o b
Call9         == EncCall(U32(77), U32(2), U32(7), U32(1), U32(0), NoAuth, NoAuth, <<>>)

Streams == TLCEval(<<
  GoodCall(1, <<>>), GoodCall(2, <<0, 0, 0, 7>>), GoodCall(3, <<1, 2, 3>>), Garbage \o GoodCall(4, <<>>), Empty \o GoodCall(5, <<>>), Empty \o Empty \o Garbage,
  GoodCall(6, <<>>) \o GoodCall(7, <<>>), GoodCall(8, Pat(12, 1)) \o ShortCall, ShortCall \o GoodCall(9, <<>>), ReplyRec \o GoodCall(10, <<>>), Elsewhere(11), Wrong(12) \o Empty,
  GoodCall(1, <<>>) \o NonFinal(Call9), NonFinal(Call9), NonFinal(<<>>) \o GoodCall(13, <<>>), NonFinal(SubSeq(Call9, 1, 8)) \o Record(SubSeq(Call9, 9, Len(Call9))),
  GoodCall(14, Pat(200, 2)) \o GoodCall(15, <<>>) \o GoodCall(16, Pat(64, 1)),
  GoodCall(17, Pat(260, 2)) \o Garbage \o GoodCall(18, <<>>) \o Empty \o Elsewhere(19) \o ShortCall \o Wrong(20) \o ReplyRec \o GoodCall(21, Pat(1000, 3)),
  GoodCall(22, <<>>) \o GoodCall(22, <<>>) \o GoodCall(22, <<0, 0, 0, 1>>),
  GoodCall(1, <<>>) \o <<128, 0, 16, 0>> \o Call9, <<128, 16, 0, 0>> \o Call9, GoodCall(2, <<>>) \o <<0, 16, 0, 0>> \o Call9, <<127, 255, 255, 255>> \o Call9,
  <<64, 0, 0, 40>> \o Call9, <<128, 0, 1, 0>> \o Pat(256, 1) \o GoodCall(23, <<>>), <<128, 1, 0, 0>> \o Call9, GoodCall(24, <<>>) \o <<128>>, GoodCall(25, <<>>) \o <<0>>,
  GoodCall(26, <<>>) \o <<128, 0, 0, 1>>, <<128, 0, 0, Len(Call9) + 1>> \o Call9, <<128, 0, 0, Len(Call9) - 4>> \o Call9 \o GoodCall(27, <<>>) >>)

S == Streams[sid]
RecordsOf == TLCEval([i \in 1..Len(Streams) |-> Records(Streams[i], 1)])

\* ----------------------------------------------------------------- reading
Value(m) == ((((m[1] % 128) * 256 + m[2]) * 256 + m[3]) * 256) + m[4]
\* The reader's state after some bytes: [got, need, what, acted].
RECURSIVE Feed(_, _)
Feed(st, b) ==
  IF st.what = "stopped" THEN st
  ELSE IF st.need > Len(b) THEN [st EXCEPT !.got = @ \o b, !.need = @ - Len(b)]
  ELSE LET unit == TLCEval(st.got \o SubSeq(b, 1, st.need))
           rest == TLCEval(SubSeq(b, st.need + 1, Len(b)))
       IN  IF st.what = "mark"
           THEN IF unit[1] < 128 THEN [st EXCEPT !.what = "stopped", !.got = <<>>]
                ELSE Feed([st EXCEPT !.what = "record", !.got = <<>>, !.need = Value(unit)], rest)
           ELSE Feed([what |-> "mark", got |-> <<>>, need |-> 4, acted |-> Append(st.acted, unit)], rest)

Deliver(n) ==
  /\ ended = ""
  /\ n <= Len(S) - pos
  /\ LET st == TLCEval(Feed([got |-> got, need |-> need, what |-> what, acted |-> acted], SubSeq(S, pos + 1, pos + n))) IN
     /\ got' = st.got /\ need' = st.need /\ what' = st.what /\ acted' = st.acted
  /\ pos' = pos + n
  /\ pieces' = Append(pieces, n)
  /\ UNCHANGED <<sid, ended>>

Ends == <<"eof", "eofdata", "err", "errdata">>
Finish(how) ==
  /\ ended = ""
  /\ ended' = how
  /\ UNCHANGED <<sid, pos, pieces, got, need, what, acted>>

Init == /\ sid \in {i \in 1..Len(Streams) : i % Shards = Shard}
        /\ pos = 0 /\ pieces = <<>> /\ got = <<>> /\ need = 4 /\ what = "mark" /\ acted = <<>> /\ ended = ""

\* Enumerated: one piece up to anywhere, or all of it with one or two cuts.
NextEx ==
  \/ Len(pieces) = 0 /\ \E n \in 0..Len(S) : Deliver(n)
  \/ Len(pieces) = 1 /\ IF Len(S) <= TwoCuts THEN \E n \in 1..(Len(S) - pos) : Deliver(n)
                        ELSE pos < Len(S) /\ Deliver(Len(S) - pos)
  \/ Len(pieces) = 2 /\ pos < Len(S) /\ Deliver(Len(S) - pos)
  \/ /\ Len(pieces) = 1 \/ (pos = Len(S) /\ pieces # <<>>)
     /\ Finish(Ends[((pos + Len(pieces) + sid) % 4) + 1])
\* Drawn: any pieces, mostly small, with empty reads in between.
Pick(T) == RandomElement(T)
NextRandom ==
  \E k \in {Pick(1..60)} :
    IF pos = Len(S) \/ k = 60 THEN Finish(Ends[Pick(1..4)])
    ELSE \E n \in {IF k <= 8 THEN 0 ELSE IF k <= 28 THEN 1 ELSE IF k <= 44 THEN Pick(1..5) ELSE Pick(1..64)} :
           Deliver(IF n > Len(S) - pos THEN Len(S) - pos ELSE n)
Next == IF Random THEN NextRandom ELSE NextEx

Emit == /\ ended # ""
        /\ CSVWrite("%1$s", <<ToJson([sid |-> sid, pieces |-> pieces, end |-> ended, pos |-> pos, acted |-> Len(acted),
                                      mid |-> what = "stopped" \/ what = "record" \/ got # <<>>])>>, OutDir \o "/" \o IOEnv.SHARD)
        /\ FALSE
Spec == Init /\ [][Next \/ Emit]_vars

----------------------------------------------------------------------------
\* The reader acts on exactly the records at the front of what has arrived,
\* whatever the pieces were.
ActsOnRecords == acted = Records(SubSeq(S, 1, pos), 1)
\* ... so at the end of the stream, on the records of the stream.
ActsOnAll == pos = Len(S) => acted = RecordsOf[sid]
\* It never acts twice on a record nor skips one: acted only grows, by
\* records of the stream, in order.
InOrder == IsPrefix(acted, RecordsOf[sid])

ASSUME JsonSerialize(OutDir \o "/streams" \o IOEnv.SHARD \o ".json",
         [reg |-> Reg, streams |-> [i \in 1..Len(Streams) |->
            [b |-> Streams[i], recs |-> [k \in 1..Len(RecordsOf[i]) |-> [b |-> RecordsOf[i][k]] @@ Reaction(Reg, RecordsOf[i][k])]]]])
=============================================================================
