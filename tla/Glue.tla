-------------------------------- MODULE Glue --------------------------------
(***************************************************************************)
(* What the glue of a program does: each registration, invoked with the    *)
(* bytes of an argument, decodes it and calls exactly the method of its    *)
(* procedure with it; what the method returns is the result.  If the       *)
(* bytes do not decode it is an error and nothing is called.  Invocations  *)
(* overlap.                                                                *)
(***************************************************************************)
EXTENDS GlueProgs, Json, CSV, IOUtils

CONSTANTS Random, MaxSteps
OutDir == IOEnv.OUT
Shard  == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)

\* The bytes tried for an argument of type t.
Cuts(b) == LET n == Len(b) IN SelectSeq(<<0, n - 1, n - 4, n - 8, (n \div 8) * 4>>, LAMBDA k : k >= 0 /\ k < n)
TriesOf(t) ==
  LET g == TLCEval(Take(Reps(Env, t, 2), 14))
      e == TLCEval([i \in 1..Len(g) |-> EncOf(t, g[i], TRUE)])
      bad == TLCEval(Take(BadReps(Env, t, 2), 4))
      c1 == Cuts(e[1])  c2 == Cuts(e[Len(e)])
  IN  TLCEval(e
      \o [i \in 1..Len(c1) |-> SubSeq(e[1], 1, c1[i])]
      \o [i \in 1..Len(c2) |-> SubSeq(e[Len(e)], 1, c2[i])]
      \o [i \in 1..Len(bad) |-> EncOf(t, bad[i], FALSE)]
      \o <<e[1] \o <<0, 0, 0, 9>>>>)
ASSUME TLCSet(1, TLCEval([k \in 1..Len(AllProcs) |-> TriesOf(ProcAt(k).a)]))
ASSUME TLCSet(2, TLCEval([k \in 1..Len(AllProcs) |-> TLCEval(Take(Reps(Env, ProcAt(k).r, 2), 20))]))
Tries(k)   == TLCGet(1)[k]
Results(k) == TLCGet(2)[k]

\* ------------------------------------------------------------------ steps
VARIABLES n,     \* invocations so far
          open,  \* those whose method has not returned: [id, k, v]
          h
vars == <<n, open, h>>

Invoke(k0, b0) ==
  \E k \in {k0}, b \in {b0} : \E d \in {Dec(Env, ProcAt(k).a, b, 1)} :
    /\ n' = n + 1
    /\ open' = IF d.ok THEN Append(open, [id |-> n + 1, k |-> k, v |-> d.v]) ELSE open
    /\ h' = Append(h, [op |-> "invoke", id |-> n + 1, k |-> k, b |-> b, ok |-> d.ok, v |-> IF d.ok THEN d.v ELSE <<>>,
                       lax |-> d.lax \/ (d.ok /\ d.p # Len(b) + 1)])
Return(i, r0) ==
  \E o \in {open[i]}, r \in {r0} :
    /\ open' = SubSeq(open, 1, i - 1) \o SubSeq(open, i + 1, Len(open))
    /\ h' = Append(h, [op |-> "return", id |-> o.id, k |-> o.k, v |-> r, b |-> EncOf(ProcAt(o.k).r, r, TRUE)])
    /\ UNCHANGED n

Init == n = 0 /\ open = <<>> /\ h = <<>>

\* Enumerated: every procedure with every argument; every pair of procedures
\* that are near one another, overlapping.
Close(k, j) == j \in {k, k + 1} \/ ProcAt(k).n = ProcAt(j).n \/ AllProcs[k].c = AllProcs[j].c
NextEx ==
  \/ /\ n = 0
     /\ \E k \in {x \in 1..Len(AllProcs) : x % Shards = Shard} : \E i \in 1..Len(Tries(k)) : Invoke(k, Tries(k)[i])
  \/ /\ n = 1 /\ Len(open) = 1 /\ h[1].b = Tries(h[1].k)[1]
     /\ \E j \in 1..Len(AllProcs) : Close(h[1].k, j) /\ Invoke(j, Tries(j)[IF Len(Results(j)) > 1 THEN 2 ELSE 1])
  \/ /\ n > 0
     /\ \E i \in 1..Len(open) : Return(i, Rot(Results(open[i].k), Len(h[open[i].id].b) + i + n))
Draw(S) == RandomElement(S)
NextRandom ==
  \E w \in {Draw(1..3)}, k \in {Draw(1..Len(AllProcs))}, x \in {Draw(1..10000)} :
    IF open # <<>> /\ (w = 1 \/ Len(open) = 3 \/ n = MaxSteps)
    THEN \E i \in {Draw(1..Len(open))} : Return(i, Rot(Results(open[i].k), x))
    ELSE IF n = MaxSteps THEN FALSE
    ELSE \E b \in {Rot(Tries(k), x)} : Invoke(k, b)
Complete == n > 0 /\ open = <<>> /\ (~Random \/ n = MaxSteps)
Next == IF Random THEN NextRandom ELSE NextEx
Emit == /\ Complete
        /\ CSVWrite("%1$s", <<ToJson(h)>>, OutDir \o "/" \o IOEnv.SHARD)
        /\ FALSE
Spec == Init /\ [][Next \/ Emit]_vars

----------------------------------------------------------------------------
\* Nothing is called unless its argument decodes, and every call is one of
\* the invocations, for its procedure and argument.
CallsAreInvocations ==
  \A i \in 1..Len(open) : \E j \in 1..Len(h) :
     /\ h[j].op = "invoke" /\ h[j].id = open[i].id /\ h[j].ok /\ h[j].k = open[i].k /\ h[j].v = open[i].v
ReturnsOnce == \A i, j \in 1..Len(h) : (h[i].op = "return" /\ h[j].op = "return" /\ h[i].id = h[j].id) => i = j
ResultDecodes ==
  h # <<>> /\ h[Len(h)].op = "return" =>
     LET x == h[Len(h)]  d == Dec(Env, ProcAt(x.k).r, x.b, 1) IN d.ok /\ d.v = x.v /\ d.p = Len(x.b) + 1
\* Registrations tell procedures apart.
RegsDistinct == Cardinality(Regs) = Len(AllProcs)
ASSUME RegsDistinct
=============================================================================
