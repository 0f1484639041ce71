---------------------------- MODULE RpcServerSeq ----------------------------
(***************************************************************************)
(* A server as its users see it, one step at a time: procedures are        *)
(* registered and records arrive on a connection; each record has one      *)
(* reaction.  A registration ends the connection (the server's table must  *)
(* not change while it serves).                                            *)
(***************************************************************************)
EXTENDS RpcMsg, Json, CSV, IOUtils, SequencesExt

CONSTANTS MaxRegs, MaxRecs, Exhaustive
OutDir == IOEnv.OUT
Shard  == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)

VARIABLES reg,     \* registrations so far
          done,    \* records so far: what arrived, and its reaction
          h        \* steps
vars == <<reg, done, h>>

P1 == U32(7)  P2 == U32(100003)  P3 == <<255, 255, 255, 254>>
V0 == U32(0)  V1 == U32(1)  V2 == U32(2)  V4 == U32(4)  VM == <<255, 255, 255, 255>>
C0 == U32(0)  C1 == U32(1)  CM == <<128, 0, 0, 1>>

Kinds == <<"echo", "nil", "void", "err", "errres", "toolong", "partial", "dec">>

\* Triples that get registered.
Triples == { <<P1, V1, C0>>, <<P1, V1, C1>>, <<P1, V2, C1>>, <<P1, V4, C0>>, <<P1, VM, CM>>, <<P2, V0, C1>>, <<P3, V2, C0>> }

Xids == << U32(1), <<255, 255, 255, 255>>, <<0, 0, 0, 0>>, <<1, 2, 3, 4>> >>
Auths == << NoAuth, <<U32(1), Pat(20, 3)>>, <<U32(0), Pat(1, 1)>>, <<U32(2), Pat(400, 2)>>, <<U32(6), Pat(7, 5)>>, <<VM, Pat(399, 9)>> >>
ArgSets == << <<>>, <<0, 0, 0, 9>>, <<0, 0, 0, 5, 0, 0, 0, 3, 120, 121, 122, 0>>, <<0, 0, 0, 5, 0, 0, 0, 9, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 0, 0>>,
              Pat(16, 1), <<1, 2, 3, 4, 5>>, Pat(100, 2) >>

\* Where calls are addressed to: everything registered or nearly so.
Targets == { <<p, v, c>> : p \in {P1, P2, P3, U32(8)}, v \in {V0, V1, V2, U32(3), V4, VM}, c \in {C0, C1, CM} }

\* Numbers that are easily taken for those of a triple: another byte of one of
\* them, the same number with a carry between two of them, the three in
\* another order.
Flip(w, i, d) == [w EXCEPT ![i] = (w[i] + d) % 256]
Aliases(t) ==
  { [t EXCEPT ![k] = Flip(t[k], i, d)] : k \in 1..3, i \in 1..4, d \in {1, 128, 255} }
  \cup { [t EXCEPT ![k] = Flip(t[k], i, 1), ![k + 1] = Flip(t[k + 1], j, 255)] : k \in 1..2, i \in {2, 4}, j \in {2, 3} }
  \cup { [t EXCEPT ![k] = Flip(t[k], i, 255), ![k + 1] = Flip(t[k + 1], j, 1)] : k \in 1..2, i \in {2, 4}, j \in {2, 3} }
  \cup { <<t[2], t[1], t[3]>>, <<t[1], t[3], t[2]>>, <<t[3], t[2], t[1]>>, <<t[2], t[3], t[1]>>, <<t[3], t[1], t[2]>> }

\* The i-th element of a sequence, cyclically, so that other aspects vary
\* along with the one that is enumerated.
Nth(s, i) == s[(i % Len(s)) + 1]

Call(rv, t, i) == EncCall(Nth(Xids, i), rv, t[1], t[2], t[3], Nth(Auths, i \div 2), Nth(Auths, i \div 3), Nth(ArgSets, i))

Good1 == EncCall(U32(21), U32(2), P1, V1, C0, NoAuth, <<U32(1), Pat(6, 1)>>, <<0, 0, 0, 9>>)
HeaderLen == Len(Good1) - 4

\* Records that are not well-formed calls, or only just.
Odd ==
  \* a call cut short anywhere in its header; without its arguments it is well-formed
  { SubSeq(Good1, 1, n) : n \in 0..Len(Good1) }
  \* replies, and messages of no known type
  \cup { EncMsg(Success(U32(5), NoAuth)), EncMsg(Denied(U32(5), U32(2), U32(2))), EncMsg(Status(U32(5), PROC_UNAVAIL)) }
  \cup { U32(5) \o w \o SubSeq(Good1, 9, Len(Good1)) : w \in {U32(1), U32(2), U32(256), <<128, 0, 0, 0>>, VM} }
  \* credentials longer than the bound, or claiming to be
  \cup { SubSeq(Good1, 1, 28) \o w \o Pat(k, 1) : w \in {U32(401), U32(404), VM, U32(400), U32(4)}, k \in {0, 4, 8, 16, 408} }
  \* padding of a verifier
  \cup { SubSeq(Good1, 1, 28) \o <<0, 0, 0, 1, 5, 0, 0, b>> \o U32(0) \o U32(0) \o U32(77) : b \in {0, 1} }
  \cup { Pat(n, 4) : n \in {3, 4, 8, 40, 64} }

RpcVersions == { U32(2), U32(0), U32(1), U32(3), <<2, 0, 0, 0>>, VM }

Registration(t, kind, id) == [prog |-> t[1], vers |-> t[2], proc |-> t[3], kind |-> kind, id |-> id]
Register(t, kind) ==
  /\ Len(reg) < MaxRegs
  /\ LET r == Registration(t, kind, Len(reg) + 1) IN
     /\ reg' = Append(reg, r)
     /\ h' = Append(h, [op |-> "reg"] @@ r)
  /\ UNCHANGED done
Arrive(rec) ==
  /\ Len(done) < MaxRecs
  /\ LET x == TLCEval(Reaction(reg, rec)) IN
     /\ done' = Append(done, [rec |-> rec] @@ x)
     /\ h' = Append(h, [op |-> "rec", b |-> rec] @@ x)
  /\ UNCHANGED reg

\* --- exhaustive: every table of at most two procedures (the second one
\* echoes), and tables of every set of versions of one program; one record.
Echo1 == <<Registration(<<P1, V1, C0>>, "echo", 1)>>
ConfigSet ==
  TLCEval({ <<>> }
  \cup { <<Registration(t, Kinds[k], 1)>> : t \in Triples, k \in 1..Len(Kinds) }
  \cup { <<Registration(t, Kinds[k], 1), Registration(u, "echo", 2)>> : t \in Triples, k \in {1, 2}, u \in Triples }
  \cup { LET v == CHOOSE q \in [1..Cardinality(V) -> V] : \A i, j \in 1..Cardinality(V) : i < j => WordLess(q[j], q[i])
          IN  [i \in 1..Cardinality(V) |-> Registration(<<P1, v[i], C1>>, "echo", i)] : V \in SUBSET {V0, V1, V2, V4, VM} })
\* Two triples that are easily taken for each other, with different handlers.
SomeAliases(t) == LET s == SetToSeq(Aliases(t)) IN { s[i] : i \in {i \in 1..Len(s) : i % 3 = Cardinality({x \in Triples : WordLess(x[1], t[1])}) % 3} }
Pairs == { <<Registration(t, "echo", 1), Registration(u, "nil", 2)>> : <<t, u>> \in UNION {{<<t, u>> : u \in SomeAliases(t)} : t \in Triples} }
Configs == TLCEval(SetToSeq(ConfigSet) \o SetToSeq(Pairs))

Idx(t) == t[1][4] + t[2][4] + 2 * t[3][4]
\* The records that a table is tried with: calls to everything registered
\* with all arguments, to everything near it, and, for one table, oddities.
Near(c) == { c[i].prog : i \in 1..Len(c) } \cup { U32(8) }
Called(c) == { Call(U32(2), <<c[i].prog, c[i].vers, c[i].proc>>, Idx(<<c[i].prog, c[i].vers, c[i].proc>>)) : i \in 1..Len(c) }
RecordsFor(c) == IF Len(c) = 2 /\ c[2].kind = "nil" THEN Called(c) ELSE
  { Call(U32(2), t, Idx(t) + Len(c)) : t \in {u \in Targets : u[1] \in Near(c)} }
  \cup (IF Len(c) # 1 THEN {} ELSE { Call(U32(2), t, Idx(t)) : t \in Aliases(<<c[1].prog, c[1].vers, c[1].proc>>) })
  \cup { Call(U32(2), <<c[i].prog, c[i].vers, c[i].proc>>, k) : i \in 1..Len(c), k \in IF Len(c) = 1 THEN 1..14 ELSE 1..3 }
  \cup IF c # Echo1 THEN {} ELSE
       Odd \cup { Call(rv, t, i) : rv \in RpcVersions, t \in {<<P1, V1, C0>>, <<P1, V2, C0>>, <<P2, V2, C1>>}, i \in 1..3 }

\* --- random: anything in any order.  Choices are drawn, not enumerated.
Pick(S) == RandomElement(S)
AnyRecord ==
  LET k == Pick(1..11) IN
  CASE k <= 2 -> Call(U32(2), Pick(Targets), Pick(0..83))
    [] k <= 7 /\ reg # <<>> -> LET r == Pick({reg[i] : i \in 1..Len(reg)}) IN Call(U32(2), <<r.prog, r.vers, r.proc>>, Pick(0..83))
    [] k = 8 -> Call(Pick(RpcVersions), Pick(Triples), Pick(0..83))
    [] k = 9 -> Pick(Odd)
    [] k = 11 /\ reg # <<>> -> LET r == Pick({reg[i] : i \in 1..Len(reg)}) IN Call(U32(2), Pick(Aliases(<<r.prog, r.vers, r.proc>>)), Pick(0..83))
    [] OTHER -> LET g == Call(U32(2), Pick(Triples), Pick(0..83))
                    i == Pick(1..Len(g))
                IN  [g EXCEPT ![i] = Pick({0, 1, 2, 127, 128, 255})]

NextRandom ==
  \E a \in {Pick(1..4)} :
    IF Len(reg) < MaxRegs /\ (a = 1 \/ (reg = <<>> /\ a < 4))
    THEN \E t \in {Pick(Triples)}, k \in {Pick(1..Len(Kinds))} : Register(t, Kinds[k])
    ELSE \E r \in {AnyRecord} : Arrive(r)

Init ==
        /\ done = <<>>
        /\ IF ~Exhaustive THEN reg = <<>> /\ h = <<>>
           ELSE \E n \in {n \in 1..Len(Configs) : n % Shards = Shard} :
                  /\ reg = Configs[n]
                  /\ h = [i \in 1..Len(Configs[n]) |-> [op |-> "reg"] @@ Configs[n][i]]
Complete == Len(done) = MaxRecs
Next == /\ ~Complete
        /\ IF Exhaustive THEN \E r \in RecordsFor(reg) : Arrive(r) ELSE NextRandom
Emit == /\ Complete
        /\ CSVWrite("%1$s", <<ToJson(h)>>, OutDir \o "/" \o IOEnv.SHARD)
        /\ FALSE
Spec == Init /\ [][Next \/ Emit]_vars

----------------------------------------------------------------------------
\* What must hold of the reactions, said independently of how Reaction is
\* defined.
LastDone == done[Len(done)]
JustArrived == done # <<>> /\ h[Len(h)].op = "rec"
CallFor(r) == ParseCall(r.rec)
\* a reply repeats the xid and decodes
RepliesDecode ==
  JustArrived =>
    LET r == LastDone
        d == Dec(RpcEnv, Msg, SubSeq(r.reply, 5, Len(r.reply)), 1)
    IN  /\ (r.reply # <<>>) = CallFor(r).ok
        /\ r.reply # <<>> =>
             /\ d.ok /\ ~d.lax /\ d.v[1] = SubSeq(r.rec, 1, 4) /\ d.v[2].d = U32(1)
             /\ Records(r.reply, 1) = <<SubSeq(r.reply, 5, Len(r.reply))>>
             \* only a success carries anything after the reply message
             /\ d.p <= Len(r.reply) - 4 => d.v[2].a[1].d = U32(0) /\ d.v[2].a[1].a[1][2].d = SUCCESS
\* a handler runs only for a version 2 call to exactly its triple
RunsOnlyOwn ==
  JustArrived =>
    LET r == LastDone
        c == CallFor(r)
    IN  /\ r.inv # 0 => /\ c.ok /\ c.rpcvers = U32(2)
                        /\ <<reg[r.inv].prog, reg[r.inv].vers, reg[r.inv].proc>> = <<c.prog, c.vers, c.proc>>
                        /\ \A j \in (r.inv + 1)..Len(reg) :
                             <<reg[j].prog, reg[j].vers, reg[j].proc>> # <<c.prog, c.vers, c.proc>>
        /\ (c.ok /\ c.rpcvers = U32(2) /\ \E j \in 1..Len(reg) :
             <<reg[j].prog, reg[j].vers, reg[j].proc>> = <<c.prog, c.vers, c.proc>>) => r.inv # 0
MismatchRange ==
  JustArrived /\ LastDone.reply # <<>> =>
    LET d == Dec(RpcEnv, Msg, SubSeq(LastDone.reply, 5, Len(LastDone.reply)), 1).v[2].a[1] IN
    d.d = U32(0) /\ d.a[1][2].d = PROG_MISMATCH =>
      LET lo == d.a[1][2].a[1][1]
          hi == d.a[1][2].a[1][2]
          V == Versions(reg, CallFor(LastDone).prog)
      IN  lo \in V /\ hi \in V /\ (\A v \in V : ~WordLess(v, lo) /\ ~WordLess(hi, v)) /\ CallFor(LastDone).vers \notin V
=============================================================================
