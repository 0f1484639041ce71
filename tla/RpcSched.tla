------------------------------ MODULE RpcSched ------------------------------
(***************************************************************************)
(* Schedules of RpcServer to drive the real server through: which record   *)
(* arrives, which handler returns, which result is encoded and which reply *)
(* is written next.  The steps that cannot be observed - which buffer is   *)
(* taken, and its return to the pool - are left to happen as they do.      *)
(***************************************************************************)
EXTENDS RpcServer, RpcMsg, Json, CSV, IOUtils

CONSTANTS MaxCalls, Everything
OutDir == IOEnv.OUT
Shard  == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)

VARIABLE h
svars == <<vars, h>>

\* ------------------------------------------------ the bytes of each call
\* The argument of a call is data of some size, a number, and some more data.
\* The data of the larger ones is Fills[size] bytes longer than is written out
\* here: the driver puts those in, between the two parts of a split sequence.
ArgSizes == <<12, 300, 4000, 12, 12>>
Fills == <<0, 0, 0, 70000, 1100000>>
KindSeq == <<"echo", "err", "fail", "none">>
Early(c, size) == Pat(ArgSizes[size], c)
Late(c) == Pat(5, c + 50)
OpaqueEnc(b) == Enc(<<>>, TOpaque(-1), b, TRUE).b
Before(c, size) == TLCEval(U32(ArgSizes[size] + Fills[size]) \o Early(c, size))
After(c, size) == TLCEval(Pad(ArgSizes[size] + Fills[size]) \o U32(1000 + c) \o OpaqueEnc(Late(c)))
\* [a, n, b]: n bytes of the driver's go between a and b
Split(head, c, size) == [a |-> Mark(Len(head) + Len(Before(c, size)) + Fills[size] + Len(After(c, size))) \o head \o Before(c, size),
                         n |-> Fills[size], b |-> After(c, size)]
Whole(b) == [a |-> Record(b), n |-> 0, b |-> <<>>]
ASSUME \A s \in 1..3 : LET q == Split(<<1, 2>>, 1, s) IN q.a \o q.b = Record(<<1, 2>> \o OpaqueEnc(Early(1, s)) \o U32(1001) \o OpaqueEnc(Late(1)))
ProcNo(kind) == CHOOSE i \in 1..4 : KindSeq[i] = kind
RecordOf(c, x, size, kind) == Split(EncCall(U32(x), U32(2), U32(7), U32(1), U32(ProcNo(kind)), NoAuth, NoAuth, <<>>), c, size)
ReplyOf(c, x, size, kind) ==
  CASE kind = "echo" -> Split(EncMsg(Success(U32(x), NoAuth)), c, size)
    [] kind = "err"  -> Whole(EncMsg(Status(U32(x), GARBAGE_ARGS)))
    [] kind = "fail" -> Whole(EncMsg(Status(U32(x), SYSTEM_ERR)))
    [] kind = "none" -> Whole(EncMsg(Status(U32(x), PROC_UNAVAIL)))
\* The xid of a call is its number on its connection, so that calls on
\* different connections have the same xids.
Xid(p, c) == Cardinality({d \in 1..c : p[d].conn = p[c].conn})
Table == [c \in 1..MaxCalls |-> [x \in 1..c |-> [s \in 1..5 |-> [k \in 1..4 |->
            [rec |-> RecordOf(c, x, s, KindSeq[k]), reply |-> ReplyOf(c, x, s, KindSeq[k])]]]]]
ASSUME Shard # 0 \/ JsonSerialize(OutDir \o "/table.json",
          [calls |-> Table, early |-> [c \in 1..MaxCalls |-> [s \in 1..5 |-> [a |-> Early(c, s), n |-> Fills[s], b |-> <<>>]]], late |-> [c \in 1..MaxCalls |-> Late(c)]])

\* -------------------------------------------------------------- schedules
Canon(p) == \A i \in 1..Len(p) : p[i].conn <= 1 + Cardinality({p[j].conn : j \in 1..(i - 1)})
Entry(conns, sizes, kinds) == [conn : conns, size : sizes, kind : kinds]
Kinds4 == {"echo", "err", "fail", "none"}
PairPlans == {p \in [1..2 -> Entry(1..2, 1..2, Kinds4)] : Canon(p)}
             \cup {p \in [1..2 -> Entry(1..2, {2, 4}, {"echo", "err"})] : Canon(p)}
TriplePlans == {p \in [1..3 -> Entry(1..2, 1..2, {"echo"})] : Canon(p)}
              \cup {p \in [1..3 -> Entry({1}, {2}, {"echo", "err", "none"})] : Canon(p)}

\* Any step that can be seen; buffers go back to the pool at once.
Visible(op, c, A) == A /\ h' = Append(h, <<op, c>>)
Step == IF \E c \in Calls : st[c] = "done"
        THEN Free(CHOOSE c \in Calls : st[c] = "done") /\ UNCHANGED h
        ELSE \E c \in Calls : \/ /\ Turn(c)
                                 /\ LET P == {b \in pool : cap[b] >= plan[c].size}
                                        b == IF P = {} THEN Len(mem) + 1 ELSE CHOOSE b \in P : TRUE
                                    IN  Visible("feed", c, Feed(c) /\ held' = [held EXCEPT ![c] = b] /\ (P = {} => pool' = pool))
                              \/ Visible("exit", c, Exit(c))
                              \/ Visible("enc", c, Encode(c))
                              \/ Visible("write", c, Write(c))
AllDone == \A c \in Calls : st[c] = "freed"

\* Random plans: drawn call by call.
Pick(S) == RandomElement(S)
RandomPlan == LET n == Pick(3..MaxCalls)
                  k == Pick(1..3)
              IN  [c \in 1..n |-> [conn |-> Pick(1..k), size |-> (<<1, 1, 2, 2, 3, 3, 4, 4, 5>>)[Pick(1..9)], kind |-> IF Pick(1..3) = 1 THEN Pick(Kinds4) ELSE "echo"]]

SPlans == IF MaxCalls = 2 THEN PairPlans ELSE IF Everything THEN TriplePlans ELSE {<<>>}
SInit == Init /\ h = <<>>
Start == /\ plan = <<>>
         /\ \E p \in {RandomPlan} : 
              /\ plan' = p
              /\ st' = [c \in 1..Len(p) |-> "idle"]
              /\ held' = [c \in 1..Len(p) |-> 0]
              /\ reply' = [c \in 1..Len(p) |-> 0]
              /\ sent' = [k \in {p[c].conn : c \in 1..Len(p)} |-> <<>>]
         /\ UNCHANGED <<mem, cap, pool, h>>
Emit == /\ AllDone /\ plan # <<>>
        /\ CSVWrite("%1$s", <<ToJson([plan |-> [c \in Calls |-> plan[c] @@ [xid |-> Xid(plan, c)]], steps |-> h])>>, OutDir \o "/" \o IOEnv.SHARD)
        /\ FALSE
SNext == (IF plan = <<>> THEN Start ELSE Step) \/ Emit
SSpec == SInit /\ [][SNext]_svars
\* Only this shard's share of the schedules is followed: by the first steps.
Mine == plan = <<>> \/ \A i \in {4} : Len(h) >= i /\ Everything => 
          ((h[1][2] * 7 + h[2][2] * 5 + h[3][2] * 3 + h[4][2] + Cardinality({c \in Calls : plan[c].size = 1}) * 3
            + Cardinality({c \in Calls : plan[c].kind = "echo"}) + plan[Len(plan)].conn) % Shards) = Shard
=============================================================================
