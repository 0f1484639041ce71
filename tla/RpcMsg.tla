------------------------------- MODULE RpcMsg -------------------------------
(***************************************************************************)
(* RPC messages and record marking (RFC 1057 / RFC 5531), on top of the    *)
(* XDR semantics and the schema in SunRpc.                                 *)
(***************************************************************************)
EXTENDS SunRpc

RpcEnv == TLCEval([x \in {SunRpcDefs[i].n : i \in 1..Len(SunRpcDefs)} |->
                    (SunRpcDefs[CHOOSE i \in 1..Len(SunRpcDefs) : SunRpcDefs[i].n = x]).t])
Msg == TRef("rpc_msg")

NoAuth == <<U32(0), <<>> >>
EncMsg(m) == TLCEval(Enc(RpcEnv, Msg, TLCEval(m), TRUE).b)

\* ------------------------------------------------------------------ calls
CallMsg(xid, rpcvers, prog, vers, proc, cred, verf) ==
  <<xid, [d |-> U32(0), a |-> << <<rpcvers, prog, vers, proc, cred, verf>> >>]>>
EncCall(xid, rpcvers, prog, vers, proc, cred, verf, args) ==
  EncMsg(CallMsg(xid, rpcvers, prog, vers, proc, cred, verf)) \o args

\* What a record says: a well-formed call, or not.  canon is FALSE if its
\* header has padding that is not zero, which a server may reject.
NoCall == [ok |-> FALSE]
ParseCall(rec) ==
  LET r == TLCEval(Dec(RpcEnv, Msg, rec, 1)) IN
  IF ~r.ok THEN NoCall
  ELSE IF r.v[2].d # U32(0) THEN NoCall
  ELSE LET c == r.v[2].a[1] IN
       [ok |-> TRUE, xid |-> r.v[1], rpcvers |-> c[1], prog |-> c[2], vers |-> c[3], proc |-> c[4], cred |-> c[5], verf |-> c[6],
        args |-> SubSeq(rec, r.p, Len(rec)),
        canon |-> EncMsg(r.v) = SubSeq(rec, 1, r.p - 1)]

\* ---------------------------------------------------------------- replies
SUCCESS == U32(0)
PROG_UNAVAIL == U32(1)
PROG_MISMATCH == U32(2)
PROC_UNAVAIL == U32(3)
GARBAGE_ARGS == U32(4)
SYSTEM_ERR == U32(5)

ReplyMsg(xid, body) == <<xid, [d |-> U32(1), a |-> <<body>>]>>
Accepted(xid, verf, data) == ReplyMsg(xid, [d |-> U32(0), a |-> << <<verf, data>> >>])
Success(xid, verf)  == Accepted(xid, verf, [d |-> SUCCESS, a |-> << <<>> >>])
Mismatch(xid, low, high) == Accepted(xid, NoAuth, [d |-> PROG_MISMATCH, a |-> << <<low, high>> >>])
Status(xid, stat)   == Accepted(xid, NoAuth, [d |-> stat, a |-> <<>>])
Denied(xid, low, high) == ReplyMsg(xid, [d |-> U32(1), a |-> <<[d |-> U32(0), a |-> << <<low, high>> >>]>>])
AuthError(xid, why) == ReplyMsg(xid, [d |-> U32(1), a |-> <<[d |-> U32(1), a |-> <<why>>]>>])

\* ---------------------------------------------------------- record marking
Mark(n) == << 128 + (n \div 16777216), (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>
Record(b) == Mark(Len(b)) \o b

\* The records in a byte stream s that has ended (or broken off): as many
\* complete final records as it starts with.
RECURSIVE Records(_, _)
Records(s, p) ==
  IF p + 3 > Len(s) \/ s[p] < 128 THEN <<>>
  ELSE LET n == ((((s[p] - 128) * 256 + s[p + 1]) * 256 + s[p + 2]) * 256) + s[p + 3] IN
       IF n > Len(s) - p - 3 THEN <<>>
       ELSE <<SubSeq(s, p + 4, p + 3 + n)>> \o Records(s, p + 4 + n)

\* Unsigned comparison of words.
WordLess(a, b) == \E i \in 1..4 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
MinWord(S) == CHOOSE w \in S : \A x \in S : w = x \/ WordLess(w, x)
MaxWord(S) == CHOOSE w \in S : \A x \in S : w = x \/ WordLess(x, w)

----------------------------------------------------------------------------
\* What a server with a table of registrations does with a record.

\* The outcome of a handler: [err, fail, b]: it reports an error; its result
\* does not encode; the encoding of its result.  kind says what the handler
\* does, id tells it apart from others, args are the bytes it is given.
Words(b) == SubSeq(b, 1, (Len(b) \div 4) * 4)
\* The handler kind "dec" decodes an unsigned int and a string<8>.
DecArgs(b) == Dec(<<>>, TStruct(<<Fld("n", TUint), Fld("s", TString(8))>>), b, 1)
Outcome(kind, id, args) ==
  CASE kind = "echo" -> [err |-> FALSE, fail |-> FALSE, b |-> U32(id) \o U32(Len(Words(args))) \o Words(args)]
    [] kind \in {"nil", "void"} -> [err |-> FALSE, fail |-> FALSE, b |-> <<>>]
    [] kind \in {"err", "errres"} -> [err |-> TRUE, fail |-> FALSE, b |-> <<>>]
    [] kind \in {"toolong", "partial"} -> [err |-> FALSE, fail |-> TRUE, b |-> <<>>]
    [] kind = "dec" -> LET r == DecArgs(args) IN
                       IF r.ok THEN [err |-> FALSE, fail |-> FALSE, b |-> U32(id) \o Enc(<<>>, TString(8), r.v[2], TRUE).b \o r.v[1]]
                       ELSE [err |-> TRUE, fail |-> FALSE, b |-> <<>>]

\* reg: a sequence of [prog, vers, proc, kind, id]; the last one counts.
Latest(reg, prog, vers, proc) ==
  LET S == {i \in 1..Len(reg) : reg[i].prog = prog /\ reg[i].vers = vers /\ reg[i].proc = proc}
  IN  IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Versions(reg, prog) == {reg[i].vers : i \in {j \in 1..Len(reg) : reg[j].prog = prog}}

\* The reaction to a record: the reply record (<<>>: none), the id of the
\* handler that runs (0: none) and the bytes it is given.
Reaction(reg, rec) ==
  LET c == TLCEval(ParseCall(rec)) IN
  IF ~c.ok THEN [reply |-> <<>>, inv |-> 0, args |-> <<>>, lax |-> FALSE]
  ELSE
  LET say(m) == [reply |-> Record(EncMsg(m)), inv |-> 0, args |-> <<>>, lax |-> ~c.canon]
      V == Versions(reg, c.prog)
      k == Latest(reg, c.prog, c.vers, c.proc)
  IN  IF c.rpcvers # U32(2) THEN say(Denied(c.xid, U32(2), U32(2)))
      ELSE IF V = {} THEN say(Status(c.xid, PROG_UNAVAIL))
      ELSE IF c.vers \notin V THEN say(Mismatch(c.xid, MinWord(V), MaxWord(V)))
      ELSE IF k = 0 THEN say(Status(c.xid, PROC_UNAVAIL))
      ELSE LET o == Outcome(reg[k].kind, reg[k].id, c.args)
               m == IF o.err THEN EncMsg(Status(c.xid, GARBAGE_ARGS))
                    ELSE IF o.fail THEN EncMsg(Status(c.xid, SYSTEM_ERR))
                    ELSE EncMsg(Success(c.xid, NoAuth)) \o o.b
           IN  [reply |-> Record(m), inv |-> reg[k].id, args |-> c.args, lax |-> ~c.canon]
=============================================================================
