------------------------------ MODULE XdrBulk ------------------------------
(***************************************************************************)
(* Generated types that hold very many elements: arrays of every kind with *)
(* bounds and sizes about the limits of 15, 16, 17, 31 and 32 bits.  Their *)
(* values are too large to write out; one is given by a few elements that  *)
(* it repeats cyclically and their number, and so is its encoding.         *)
(***************************************************************************)
EXTENDS Xdr, Json, IOUtils

VARIABLE done

Sz(t, s) == [s |-> s] @@ t
Pt == TStruct(<< Fld("x", TUint), Fld("s", TString(5)) >>)
Consts == << [n |-> "BULK", v |-> 70000], [n |-> "bulk_low", v |-> 32768] >>
Elems == << [n |-> "pt", t |-> Pt], [n |-> "bopt", t |-> TOpt(TUint)] >>
Def(n, t) == [n |-> n, t |-> t]
Big == 2147483647   \* stands for bounds that no value here reaches
Defs == <<
  Def("bvi", TVarray(-1, TInt)), Def("bvi40", Sz(TVarray(40000, TInt), "40000")), Def("bvi70", Sz(TVarray(70000, TInt), "BULK")),
  Def("bvi31", Sz(TVarray(Big, TInt), "2147483648")), Def("bvi32", Sz(TVarray(Big, TInt), "4294967295")),
  Def("bvb", Sz(TVarray(65535, TBool), "0xFFFF")), Def("bvh", Sz(TVarray(65536, TUhyper), "0x10000")), Def("bvp", Sz(TVarray(32767, TRef("pt")), "077777")),
  Def("bvo", Sz(TVarray(32768, TRef("bopt")), "bulk_low")), Def("bvpn", TVarray(-1, TRef("pt"))),
  Def("bai", Sz(TArray(70000, TInt), "BULK")), Def("bap", Sz(TArray(32768, TRef("pt")), "bulk_low")), Def("bah", Sz(TArray(257, THyper), "0x101")),
  Def("bon", TOpaque(-1)), Def("bo70", Sz(TOpaque(70000), "BULK")), Def("bo16", Sz(TOpaque(65535), "65535")), Def("bo32", Sz(TOpaque(Big), "4294967295")),
  Def("bsn", TString(-1)), Def("bs70", Sz(TString(70000), "BULK")), Def("bs15", Sz(TString(32769), "0x8001")), Def("bs31", Sz(TString(Big), "2147483648")),
  Def("bf70", Sz(TFixed(70001), "70001")), Def("bf16", Sz(TFixed(65535), "65535")), Def("bf15", Sz(TFixed(32768), "bulk_low")) >>

Env == [pt |-> Pt, bopt |-> TOpt(TUint)]
Bytewise(t) == t.k \in {"opaque", "string", "fixed"}
Sized(t) == t.k \in {"array", "fixed"}
Cyc(t) == IF Bytewise(t) THEN Pat(251, 3)
          ELSE LET r == TLCEval(Reps(Env, t.t, 1)) IN
               IF t.t.k = "ref" THEN Take(r, 7) ELSE r
CycEnc(t) == IF Bytewise(t) THEN [i \in 1..251 |-> <<Cyc(t)[i]>>]
             ELSE [i \in 1..Len(Cyc(t)) |-> Enc(Env, t.t, Cyc(t)[i], TRUE).b]
Counts(t) == IF Sized(t) THEN <<t.n>>
             ELSE IF t.max < 0 \/ t.max = Big THEN <<1000, 32767, 32768, 65535, 65536, 65537, 70001, 131073>>
             ELSE <<1201, 8192, t.max - 1, t.max, t.max + 1, 2 * t.max + 1, t.max + 65536>>
Case(d, n) == [ty |-> d.n, n |-> n, ok |-> Sized(d.t) \/ d.t.max < 0 \/ n <= d.t.max, cyc |-> Cyc(d.t), enc |-> CycEnc(d.t),
               head |-> IF Sized(d.t) THEN <<>> ELSE U32(n), pad |-> IF Bytewise(d.t) THEN PadLen(n) ELSE 0]
Cases == FlattenSeq([i \in 1..Len(Defs) |-> LET c == Counts(Defs[i].t) IN [j \in 1..Len(c) |-> Case(Defs[i], c[j])]])

\* On a type of few elements the cyclic encoding is what Xdr.tla says.
With(t, n) == CASE Sized(t) -> [t EXCEPT !.n = n] [] OTHER -> [t EXCEPT !.max = n]
Agrees ==
  \A i \in 1..Len(Defs) : \A n \in {0, 1, 9, 14} :
    LET d == TLCEval(Def(Defs[i].n, With(Defs[i].t, n)))
        c == TLCEval(Case(d, n))
        el(j, s) == s[((j - 1) % Len(s)) + 1]
        v == TLCEval([j \in 1..n |-> el(j, c.cyc)])
        e == TLCEval(Enc(Env, d.t, v, TRUE))
    IN  e.ok /\ e.b = c.head \o FlattenSeq([j \in 1..n |-> el(j, c.enc)]) \o Rep(0, c.pad)

Init == done = FALSE
Next == ~done /\ done' = TRUE /\ JsonSerialize(IOEnv.OUT, [consts |-> Consts, elems |-> Elems, defs |-> Defs, cases |-> Cases])
Spec == Init /\ [][Next]_done
=============================================================================
