------------------------------ MODULE XdrRandom ------------------------------
(***************************************************************************)
(* Random definitions: types nested to a depth that the enumerated forms   *)
(* of XdrForms do not reach, referring to one another, derived from a      *)
(* seed by a small generator (the state is a pair of congruences).         *)
(***************************************************************************)
EXTENDS XdrForms, Json, IOUtils

Seed    == atoi(IOEnv.SEED)
NGroups == atoi(IOEnv.NGROUPS)
PerGroup == atoi(IOEnv.PERGROUP)

Start(g) == << ((Seed * 7919 + g * 104729) % 32362) + 1, ((Seed * 31 + g * 17) % 31726) + 1 >>
Nx(s) == << (157 * s[1]) % 32363, (146 * s[2]) % 31727 >>
\* A number in 1..n from state s.
Of(s, n) == (((s[1] + 32363 - s[2]) % 32363) % n) + 1

R(t, s) == [t |-> t, s |-> s]
Pick(seq, s) == seq[Of(s, Len(seq))]

Prims == <<TInt, TUint, THyper, TUhyper, TBool>>
PreNames == <<"color", "tint", "tuhyper", "tbool", "withk", "topq", "tfix", "tstr", "tarr", "tvar", "topt", "pstruct", "punion", "tlist">>

RECURSIVE DeclT(_, _, _, _)
RECURSIVE SpecT(_, _, _, _)
RECURSIVE FieldsT(_, _, _, _, _, _)
RECURSIVE ArmsT(_, _, _, _, _, _, _)

\* prev: names that any declaration may refer to; all: names that may only be
\* referred to as optional data.
SpecT(s0, d, prev, all) ==
  LET s1 == Nx(s0)
      k  == Of(s1, IF d > 0 THEN 10 ELSE 6)
      s2 == Nx(s1)
  IN  CASE k <= 3 -> R(Pick(Prims, s2), s2)
        [] k <= 6 -> R(TRef(Pick(prev, s2)), s2)
        [] k <= 8 -> LET f == TLCEval(FieldsT(s2, d - 1, prev, all, Of(Nx(s2), 4), 1)) IN R(TStruct(f.t), f.s)
        [] OTHER ->
             LET dk == Of(Nx(s2), 4)
                 s3 == Nx(Nx(s2))
                 D == <<[t |-> TInt, v |-> <<U32(1), U32(2), U32(9)>>, l |-> <<"1", "K2", "0x9">>],
                        [t |-> TUint, v |-> <<U32(8), U32(3), <<255, 255, 255, 255>> >>, l |-> <<"010", "k_low3", "4294967295">>],
                        [t |-> TBool, v |-> <<TRUE, FALSE>>, l |-> <<"TRUE", "FALSE">>],
                        [t |-> TRef("color"), v |-> <<U32(1), U32(7), U32(0)>>, l |-> <<"GREEN", "BLUE", "RED">>]>>[dk]
                 n  == Len(D.v)
                 narm == Of(s3, n)
                 a  == TLCEval(ArmsT(Nx(s3), d - 1, prev, all, D, 1, narm))
                 s4 == Nx(a.s)
                 df == TLCEval(DeclT(s4, d - 1, prev, all))
                 isdef == narm < n /\ Of(s4, 3) # 1
             IN  R(TUnion(Fld("sel", D.t), a.t,
                          IF ~isdef THEN <<>> ELSE IF Of(s4, 2) = 1 THEN <<Fld("", TVoid)>> ELSE <<Fld("dflt", df.t)>>), df.s)

ArmsT(s, d, prev, all, D, i, n) ==
  IF i > n THEN R(<<>>, s)
  ELSE LET void == Of(Nx(s), 5) = 1
           t == TLCEval(DeclT(Nx(s), d, prev, all))
           r == TLCEval(ArmsT(Nx(t.s), d, prev, all, D, i + 1, n))
       IN  R(<<LArm(<<D.v[i]>>, <<D.l[i]>>, IF void THEN "" ELSE "arm" \o ToString(i), IF void THEN TVoid ELSE t.t)>> \o r.t, r.s)

FieldsT(s, d, prev, all, n, i) ==
  IF i > n THEN R(<<>>, s)
  ELSE LET t == TLCEval(DeclT(s, d, prev, all))
           r == TLCEval(FieldsT(Nx(t.s), d, prev, all, n, i + 1))
       IN  R(<<Fld("fld" \o ToString(i), t.t)>> \o r.t, r.s)

DeclT(s0, d, prev, all) ==
  LET s1 == Nx(s0)
      k  == Of(s1, 14)
      n  == Of(Nx(s1), 8)
      st == Of(Nx(Nx(s1)), 6)
      s2 == Nx(Nx(Nx(s1)))
      z(T) == Sized(T, SizeText(n, st))
  IN  CASE k = 1 -> R(z(TFixed(n)), s2)
        [] k = 2 -> R(z(TOpaque(n)), s2)
        [] k = 3 -> R(z(TString(n)), s2)
        [] k = 4 -> R(IF n > 4 THEN TOpaque(-1) ELSE TString(-1), s2)
        [] k = 5 -> LET t == TLCEval(SpecT(s2, d, prev, all))
                        m == (n % 3) + 1
                    IN  R(Sized(TArray(m, t.t), SizeText(m, st)), t.s)
        [] k = 6 -> LET t == TLCEval(SpecT(s2, d, prev, all))
                        m == n % 4
                    IN  R(Sized(TVarray(m, t.t), SizeText(m, st)), t.s)
        [] k = 7 -> LET t == TLCEval(SpecT(s2, d, prev, all)) IN R(TVarray(-1, t.t), t.s)
        [] k = 8 -> R(TOpt(TRef(Pick(all, s2))), s2)
        [] k = 9 -> LET t == TLCEval(SpecT(s2, d, prev, all)) IN R(TOpt(t.t), t.s)
        [] OTHER -> SpecT(s2, d, prev, all)

NameOf(g, i) == "q" \o ToString(g) \o "_" \o Num(i)
RECURSIVE Group(_, _, _, _)
Group(g, s, i, acc) ==
  IF i > PerGroup THEN acc
  ELSE LET prev == PreNames \o [j \in 1..(i - 1) |-> NameOf(g, j)]
           all  == [j \in 1..PerGroup |-> NameOf(g, j)]
           \* every other definition is a struct or union rather than any declaration
           t == TLCEval(IF i % 3 = 0 THEN DeclT(s, 2, prev, all)
                        ELSE FieldsT(s, 2, prev, all, Of(Nx(s), 5), 1))
           T == IF i % 3 = 0 THEN t.t ELSE TStruct(t.t)
       IN  Group(g, Nx(Nx(t.s)), i + 1, Append(acc, Fld(NameOf(g, i), T)))

ASSUME JsonSerialize(IOEnv.OUT,
         [consts |-> Consts, pre |-> PreDefs,
          groups |-> [g \in 1..NGroups |-> [n |-> "rnd" \o ToString(g), defs |-> Group(g, Start(g), 1, <<>>)]]])
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
