------------------------------ MODULE E2EVals -------------------------------
(***************************************************************************)
(* The arguments and results of procedures that end-to-end plans use, by   *)
(* number.                                                                 *)
(***************************************************************************)
EXTENDS GlueProgs, RpcMsg, Json

RECURSIVE Distinct(_, _, _)
Distinct(s, i, acc) == IF i > Len(s) THEN acc
                       ELSE Distinct(s, i + 1, IF \E j \in 1..Len(acc) : acc[j] = s[i] THEN acc ELSE Append(acc, s[i]))
Large(n, s) == TLCEval(Pat(n, s))
ManyItems == TLCEval([i \in 1..300 |-> <<U64(i), Pat(i % 9, i)>>])
MixAt(i, d) == <<Pat(8, i + d), Pat(4, i + d), Pat((i + d) % 9, i), Pat(6, i + d), Pat(4, 2 * i + d), Pat((i * d) % 7, i), Pat(8, 3 * i + d), (i + d) % 3 = 0,
                 IF (i + d) % 2 = 0 THEN <<Pat(4, i)>> ELSE <<>>, U32(0), [d |-> U32(1), a |-> <<Pat(8, i + 5 * d)>>] >>
Mixes(n, d) == TLCEval([i \in 1..n |-> MixAt(i, d)])
Extra(t) == CASE t = TRef("bulk") -> << Large(1000, 1), Large(4097, 2), Large(16384, 3), Large(70001, 4), Large(4097, 5) >>
              [] t = TRef("items") -> << <<ManyItems, Large(5001, 6)>> >>
              [] t = TRef("mixes") -> << Mixes(60, 1), Mixes(400, 2), Mixes(400, 3), Mixes(401, 4) >>
              [] OTHER -> <<>>
ValsOf(t) == TLCEval(Distinct(Take(Reps(Env, t, 2), 6) \o Extra(t), 1, <<>>))
\* Encodings of arguments that do not decode, of whole words.
CutsOf(t) ==
  LET g == TLCEval(Take(Reps(Env, t, 2), 4))
      e == TLCEval([i \in 1..Len(g) |-> EncOf(t, g[i], TRUE)])
      c == TLCEval([i \in 1..Len(e) |-> SubSeq(e[i], 1, Max2(0, Len(e[i]) - 4))])
      b == TLCEval(Take(BadReps(Env, t, 2), 2))
      all == c \o TLCEval([i \in 1..Len(b) |-> EncOf(t, b[i], FALSE)])
  IN  TLCEval(SelectSeq(all, LAMBDA x : \E d \in {TLCEval(Dec(Env, t, x, 1))} : ~d.ok /\ ~d.lax))
ASSUME TLCSet(11, TLCEval([k \in 1..Len(AllProcs) |-> ValsOf(ProcAt(k).a)]))
ASSUME TLCSet(12, TLCEval([k \in 1..Len(AllProcs) |-> ValsOf(ProcAt(k).r)]))
ASSUME TLCSet(13, TLCEval([k \in 1..Len(AllProcs) |-> CutsOf(ProcAt(k).a)]))
ASSUME TLCSet(14, TLCEval([k \in 1..Len(AllProcs) |-> TLCEval(Take(BadReps(Env, ProcAt(k).a, 2), 2))]))
ASSUME TLCSet(15, TLCEval([k \in 1..Len(AllProcs) |-> TLCEval(Take(BadReps(Env, ProcAt(k).r, 2), 2))]))
Args(k)    == TLCGet(11)[k]
Results(k) == TLCGet(12)[k]
Cuts(k)    == TLCGet(13)[k]
BadArgs(k) == TLCGet(14)[k]
BadResults(k) == TLCGet(15)[k]
=============================================================================
