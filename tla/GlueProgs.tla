----------------------------- MODULE GlueProgs ------------------------------
(***************************************************************************)
(* Programs of the RPC language: their versions, procedures, numbers and   *)
(* the types of arguments and results.  A program is                       *)
(*   [n, v, s, vers: <<[n, v, s, procs: <<[n, v, s, a, r]>>]>>]            *)
(* where v is a number (4 bytes), s its source text, a and r the argument  *)
(* and result types.                                                       *)
(***************************************************************************)
EXTENDS XdrForms, SunRpc, Nfs3, IOUtils

Rotation == atoi(IOEnv.ROT)   \* varies which types meet in a procedure

NamedTypes == [i \in 1..Len(PreDefs) |-> TRef(PreDefs[i].n)]
ArgTypes == <<TVoid, TInt, TUint, THyper, TUhyper, TBool>> \o NamedTypes
NTypes == Len(ArgTypes)
TypeAt(i) == ArgTypes[((i + Rotation) % NTypes) + 1]

\* Unbounded data.
MoreDefs == << Fld("bulk", TOpaque(-1)), Fld("items", TStruct(<<Fld("names", TVarray(-1, TRef("item"))), Fld("rest", TString(-1))>>)),
               Fld("item", TStruct(<<Fld("n", TUhyper), Fld("s", TString(-1))>>)),
               \* something of everything, many times
               Fld("mixes", TVarray(-1, TRef("mix"))),
               Fld("mix", TStruct(<<Fld("h", THyper), Fld("i", TInt), Fld("o", TOpaque(-1)), Fld("f", TFixed(6)), Fld("u", TUint), Fld("s", TString(-1)),
                                    Fld("uh", TUhyper), Fld("b", TBool), Fld("p", TOpt(TInt)), Fld("c", TRef("color")), Fld("x", TRef("punion"))>>)) >>
P(n, v, s, a, r) == [n |-> n, v |-> v, s |-> s, a |-> a, r |-> r]
V(n, v, s, procs) == [n |-> n, v |-> v, s |-> s, procs |-> procs]
Prog(n, v, s, vers) == [n |-> n, v |-> v, s |-> s, vers |-> vers]
Max32 == <<255, 255, 255, 255>>

\* Every type as an argument and as a result.
WideProcs == [i \in 1..NTypes |-> P("WIDE_" \o ToString(i), U32(i - 1), ToString(i - 1), ArgTypes[i], TypeAt(i * 7))]
\* The next version has some of the procedures, with other types, and one more.
NextProcs == [i \in 1..(NTypes \div 2) |-> P("WIDE_" \o ToString(2 * i), U32(2 * i - 1), ToString(2 * i - 1), TypeAt(i * 3), ArgTypes[2 * i])]
             \o <<P("extra", U32(100), "0x64", TypeAt(4), TypeAt(5))>>
GenProgs == <<
  Prog("WIDE_PROG", <<32, 0, 0, 1>>, "0x20000001", <<
    V("WIDE_V1", U32(1), "1", WideProcs),
    V("WIDE_V2", U32(2), "2", NextProcs)>>),
  Prog("lower_prog", U32(0), "0", <<
    V("vmax", Max32, "4294967295", <<
       P("pmax", Max32, "0xffffffff", TUint, TypeAt(1)),
       P("pzero", U32(0), "0", TVoid, TVoid),
       P("poct", U32(15), "017", TypeAt(2), TVoid),
       P("select", U32(2), "0x2", TypeAt(3), TypeAt(6)),
       P("map", U32(3), "3", TRef("tstr"), TRef("tstr"))>>),
    V("vzero", U32(0), "0x0", <<
       P("map", U32(3), "3", TRef("pstruct"), TRef("tlist")),
       P("Func", <<128, 0, 0, 0>>, "2147483648", TVoid, TypeAt(8))>>),
    V("chan", U32(7), "07", <<P("pzero", U32(0), "0", TypeAt(9), TBool)>>)>>),
  \* another program may use the same procedure names and numbers
  Prog("TWIN", Max32, "4294967295", <<
    V("TWIN_V1", U32(1), "1", <<
       P("pzero", U32(0), "0", TVoid, TVoid),
       P("WIDE_3", U32(2), "2", TypeAt(10), TypeAt(11)),
       P("last", U32(4096), "4096", TRef("tvar"), TVoid)>>),
    \* versions need not have procedures
    V("TWIN_EMPTY", U32(9), "9", <<>>)>>),
  Prog("NOTHING", U32(12345), "12345", <<>>),
  Prog("BULK_PROG", U32(9), "9", <<V("BULK", U32(1), "1", <<
       P("echo", U32(1), "1", TRef("bulk"), TRef("bulk")),
       P("size", U32(2), "2", TRef("bulk"), TUint),
       P("fetch", U32(3), "3", TUint, TRef("items")),
       P("mixed", U32(4), "4", TRef("mixes"), TRef("mixes")),
       P("count", U32(5), "5", TRef("mixes"), TUhyper)>>)>>) >>

Conv(ps) == [i \in 1..Len(ps) |-> Prog(ps[i].n, U32(ps[i].v), "", [j \in 1..Len(ps[i].vers) |->
              V(ps[i].vers[j].n, U32(ps[i].vers[j].v), "", [k \in 1..Len(ps[i].vers[j].procs) |->
                LET c == ps[i].vers[j].procs[k] IN P(c.n, U32(c.v), "", c.a, c.r)])])]
Programs == TLCEval(CASE IOEnv.WHICH = "gen" -> GenProgs
                      [] IOEnv.WHICH = "rfc1057" -> Conv(SunRpcProgs)
                      [] IOEnv.WHICH = "rfc1813" -> Conv(Nfs3Progs))
Defs == CASE IOEnv.WHICH = "gen" -> PreDefs \o MoreDefs
          [] IOEnv.WHICH = "rfc1057" -> SunRpcDefs
          [] IOEnv.WHICH = "rfc1813" -> Nfs3Defs
\* (what is computed once is kept in TLC's registers)
ASSUME TLCSet(3, TLCEval(MkEnv(Defs)))
Env == TLCGet(3)
\* All procedures, with where they are.
Listed(ps) == Flat([p \in 1..Len(ps) |-> Flat([v \in 1..Len(ps[p].vers) |->
                [c \in 1..Len(ps[p].vers[v].procs) |->
                   [p |-> p, v |-> v, c |-> c, n |-> ps[p].vers[v].procs[c].n, a |-> ps[p].vers[v].procs[c].a, r |-> ps[p].vers[v].procs[c].r,
                    \* its registration
                    reg |-> <<ps[p].v, ps[p].vers[v].v, ps[p].vers[v].procs[c].v>>]]])])
ASSUME \E ps \in {Programs} : TLCSet(4, TLCEval(Listed(ps)))
AllProcs == TLCGet(4)
ProcAt(k) == AllProcs[k]

\* The registrations: exactly the procedures.
Regs == { AllProcs[k].reg : k \in 1..Len(AllProcs) }

EncOf(t, v, chk) == TLCEval(Enc(Env, t, v, chk).b)
=============================================================================
