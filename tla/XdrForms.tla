------------------------------ MODULE XdrForms ------------------------------
(***************************************************************************)
(* The declaration forms of the XDR language, enumerated: every declarator *)
(* over every kind of type specifier, in every place a declaration can     *)
(* stand, plus unions over every kind of discriminant and case label,      *)
(* recursive types and awkward names.  Each becomes a named definition of  *)
(* a specification file that the generator under test compiles.            *)
(*                                                                         *)
(* Besides the fields of Xdr.tla, types carry the source text to print:    *)
(* s (of a size), ls (of the case labels) and items[i].s.                  *)
(***************************************************************************)
EXTENDS Xdr

Hex(n) == IF n < 10 THEN "0x" \o ToString(n) ELSE
          <<"0xa", "0xB", "0xc", "0xD", "0xe", "0xF", "0x10">>[n - 9]
\* Ways to write a size n in 0..8: decimal, hexadecimal, octal, a constant
\* with an upper or lower case name, and (for 3 and 5) an enum value.
SizeText(n, style) ==
  CASE style % 6 = 1 -> Hex(n)
    [] style % 6 = 2 /\ n > 0 /\ n < 8 -> "0" \o ToString(n)
    [] style % 6 = 3 /\ n > 0 -> "K" \o ToString(n)
    [] style % 6 = 4 /\ n > 0 -> "k_low" \o ToString(n)
    [] style % 6 = 5 /\ n \in {3, 5} -> "SZ" \o ToString(n)
    [] OTHER -> ToString(n)

Sized(T, s) == [s |-> s] @@ T
It(n, v, s) == [n |-> n, v |-> v, s |-> s]
LArm(cs, ls, n, t) == [cs |-> cs, ls |-> ls, n |-> n, t |-> t]

\* ------------------------------------------------------------ the preamble
PreConsts ==
  [i \in 1..8 |-> [n |-> "K" \o ToString(i), v |-> i, s |-> ToString(i)]]
  \o [i \in 1..8 |-> [n |-> "k_low" \o ToString(i), v |-> i, s |-> Hex(i)]]
  \o << [n |-> "HEXK", v |-> 16, s |-> "0x10"], [n |-> "OCTK", v |-> 15, s |-> "017"],
        [n |-> "BIGK", v |-> 2147483647, s |-> "2147483647"], [n |-> "range", v |-> 9, s |-> "9"] >>

Color == TEnum(<<It("RED", U32(0), "0"), It("GREEN", U32(1), "1"), It("BLUE", U32(7), "7")>>)
PBool == TUnion(Fld("d", TBool), <<LArm(<<TRUE>>, <<"TRUE">>, "x", TInt),
                                   LArm(<<FALSE>>, <<"FALSE">>, "", TVoid)>>, <<>>)
PreDefs == <<
  Fld("color", Color),
  Fld("sized", TEnum(<<It("SZ3", U32(3), "3"), It("SZ5", U32(5), "0x5")>>)),
  Fld("withk", TEnum(<<It("WA", U32(2), "K2"), It("WB", U32(127), "0x7f"), It("WC", U32(15), "017"),
                       It("WD", U32(2147483647), "BIGK"), It("we", U32(3), "SZ3"), It("wf", U32(6), "k_low6")>>)),
  Fld("tint", TInt), Fld("tuint", TUint), Fld("thyper", THyper), Fld("tuhyper", TUhyper), Fld("tbool", TBool),
  Fld("tcolor", TRef("color")),
  Fld("topq", Sized(TOpaque(5), "5")), Fld("tfix", Sized(TFixed(5), "5")), Fld("tstr", Sized(TString(6), "6")),
  Fld("tarr", Sized(TArray(3, TInt), "3")), Fld("tvar", Sized(TVarray(4, TUint), "4")),
  Fld("topt", TOpt(TInt)),
  Fld("pstruct", TStruct(<<Fld("a", TInt), Fld("b", Sized(TOpaque(3), "3")), Fld("c", TUhyper)>>)),
  Fld("punion", TUnion(Fld("d", TRef("color")),
        <<LArm(<<U32(0)>>, <<"RED">>, "x", Sized(TString(4), "4")),
          LArm(<<U32(1)>>, <<"GREEN">>, "y", TUhyper)>>, <<Fld("", TVoid)>>)),
  Fld("tlist", TOpt(TRef("lnode"))),
  Fld("lnode", TStruct(<<Fld("v", TUint), Fld("next", TRef("tlist"))>>)) >>

\* ------------------------------------------------------- type specifiers
Inl1 == TStruct(<<Fld("a", TInt), Fld("b", Sized(TOpaque(3), "3"))>>)
Inl2 == PBool
Inl3 == TStruct(<<Fld("p", TStruct(<<Fld("q", Sized(TVarray(2, TUint), "2"))>>)), Fld("r", TOpt(TUhyper))>>)
Specs == << TInt, TUint, THyper, TUhyper, TBool,
            TRef("color"), TRef("tint"), TRef("tuhyper"), TRef("tbool"), TRef("tcolor"), TRef("withk"),
            TRef("topq"), TRef("tfix"), TRef("tstr"), TRef("tarr"), TRef("tvar"), TRef("topt"),
            TRef("pstruct"), TRef("punion"), TRef("tlist"), Inl1, Inl2, Inl3 >>

\* ------------------------------------------------------------ declarators
DeclsOf(t, st) == <<
  t,
  Sized(TArray(1, t), SizeText(1, st)),
  Sized(TArray(3, t), SizeText(3, st + 1)),
  Sized(TVarray(3, t), SizeText(3, st + 2)),
  Sized(TVarray(1, t), SizeText(1, st + 3)),
  TVarray(-1, t),
  TOpt(t) >>

Bytes ==
  Flat([i \in 1..7 |-> LET n == <<1, 2, 3, 4, 5, 7, 8>>[i] IN << Sized(TFixed(n), SizeText(n, i)) >>])
  \o Flat([i \in 1..8 |-> LET n == <<0, 1, 2, 3, 4, 5, 7, 8>>[i] IN
            << Sized(TOpaque(n), SizeText(n, i + 1)), Sized(TString(n), SizeText(n, i + 2)) >>])
  \o << TOpaque(-1), TString(-1), Sized(TOpaque(16), "HEXK"), Sized(TString(15), "OCTK"),
        Sized(TOpaque(9), "range"), Sized(TString(1000), "1000"),
        Sized(TOpaque(2147483647), "BIGK"), Sized(TString(2147483647), "0x7fffffff") >>

Decls == LET S == Specs IN Bytes \o Flat([i \in 1..Len(S) |-> DeclsOf(S[i], i)])

\* --------------------------------------------- places a declaration can be
Places == 6
Place(t, p) ==
  CASE p = 1 -> t
    [] p = 2 -> TStruct(<<Fld("f", t), Fld("g", TUint)>>)
    [] p = 3 -> TUnion(Fld("sw", TUint), <<LArm(<<U32(5)>>, <<"5">>, "aa", t),
                                           LArm(<<U32(6)>>, <<"k_low6">>, "bb", TInt)>>, <<>>)
    [] p = 4 -> TUnion(Fld("sw", TRef("color")), <<LArm(<<U32(1), U32(7)>>, <<"GREEN", "BLUE">>, "", TVoid)>>,
                       <<Fld("dd", t)>>)
    [] p = 5 -> TStruct(<<Fld("pre", Sized(TString(5), "5")), Fld("in", TStruct(<<Fld("f", t), Fld("z", TBool)>>)), Fld("post", THyper)>>)
    [] p = 6 -> TStruct(<<Fld("u", TUnion(Fld("sw", TBool), <<LArm(<<TRUE>>, <<"TRUE">>, "aa", t)>>, <<Fld("", TVoid)>>)),
                          Fld("g", Sized(TFixed(3), "3"))>>)

\* ------------------------------------------------------------------ unions
Discs == << [t |-> TInt,  v |-> <<U32(0), U32(3), U32(255), U32(2147483647), U32(6)>>, l |-> <<"0", "K3", "0xff", "BIGK", "k_low6">>],
            [t |-> TUint, v |-> <<U32(10), U32(8), U32(1), U32(16), <<255, 255, 255, 255>> >>, l |-> <<"10", "010", "1", "HEXK", "4294967295">>],
            [t |-> TRef("tuint"), v |-> <<U32(0), U32(3), U32(255), U32(5), U32(6)>>, l |-> <<"0", "SZ3", "0xff", "K5", "k_low6">>],
            [t |-> TRef("tint"), v |-> <<U32(15), U32(3), U32(127), U32(5), U32(1)>>, l |-> <<"017", "we", "WB", "05", "GREEN">>],
            [t |-> TBool, v |-> <<TRUE, FALSE>>, l |-> <<"TRUE", "FALSE">>],
            [t |-> TRef("tbool"), v |-> <<FALSE, TRUE>>, l |-> <<"FALSE", "TRUE">>],
            [t |-> TRef("color"), v |-> <<U32(0), U32(1), U32(7)>>, l |-> <<"RED", "GREEN", "BLUE">>],
            [t |-> TRef("tcolor"), v |-> <<U32(7), U32(1), U32(0)>>, l |-> <<"BLUE", "GREEN", "0">>],
            [t |-> TRef("withk"), v |-> <<U32(2), U32(127), U32(15), U32(2147483647), U32(3)>>, l |-> <<"WA", "0x7f", "WC", "WD", "we">>] >>

\* style 1: two arms; 2: grouped labels; 3: void arm + default arm;
\* 4: default void; 5: grouped labels with void + typed default
UnionOf(D, style) ==
  LET d == Fld("sel", D.t)
      A(i, j, n, t) == LArm(SubSeq(D.v, i, j), SubSeq(D.l, i, j), n, t)
      n == Len(D.v)
  IN CASE style = 1 -> TUnion(d, <<A(1, 1, "one", TUhyper), A(2, 2, "two", Sized(TString(5), "5"))>>, <<>>)
       [] style = 2 -> IF n < 3 THEN TUnion(d, <<A(1, 2, "one", Sized(TArray(2, TInt), "2"))>>, <<>>)
                       ELSE TUnion(d, <<A(1, 2, "one", TInt), A(3, n, "two", Sized(TFixed(3), "3"))>>, <<>>)
       [] style = 3 -> TUnion(d, <<A(1, 1, "", TVoid)>>, <<Fld("rest", Sized(TVarray(2, TUint), "2"))>>)
       [] style = 4 -> TUnion(d, <<A(2, 2, "two", TRef("pstruct"))>>, <<Fld("", TVoid)>>)
       [] style = 5 -> IF n < 3 THEN TUnion(d, <<A(1, 1, "one", TOpt(TInt)), A(2, 2, "", TVoid)>>, <<>>)
                       ELSE TUnion(d, <<A(1, 2, "", TVoid), A(3, 3, "x", TInt)>>, <<Fld("y", TRef("punion"))>>)
Unions == LET D == Discs IN Flat([i \in 1..Len(D) |-> [s \in 1..5 |-> UnionOf(D[i], s)]])

\* Types written inside types, n levels deep, under the same name at each level.
RECURSIVE Nest(_), NestU(_)
Nest(n) == IF n = 0 THEN TInt ELSE
  LET el == TStruct(<<Fld("a", Nest(n - 1)), Fld("z", TBool)>>)
  IN IF n % 3 = 0 THEN Sized(TVarray(2, el), "2") ELSE Sized(TArray(IF n % 2 = 0 THEN 1 ELSE 2, el), IF n % 2 = 0 THEN "1" ELSE "2")
NestU(n) == IF n = 0 THEN THyper ELSE
  LET el == TUnion(Fld("d", TBool), <<LArm(<<TRUE>>, <<"TRUE">>, "a", NestU(n - 1))>>, <<Fld("", TVoid)>>)
  IN IF n % 2 = 0 THEN Sized(TVarray(2, el), "2") ELSE Sized(TArray(2, el), "2")

\* --------------------------------------------------------------- the rest
\* [name, type] pairs; the types may refer to one another in any order.
Others1 == <<
  Fld("r_node", TStruct(<<Fld("v", TInt), Fld("next", TOpt(TRef("r_node")))>>)),
  Fld("r_tree", TStruct(<<Fld("label", Sized(TString(3), "3")), Fld("kids", Sized(TVarray(3, TRef("r_leaf")), "3"))>>)),
  Fld("r_leaf", TStruct(<<Fld("w", TUint), Fld("up", TOpt(TRef("r_node")))>>)),
  Fld("r_uni", TUnion(Fld("more", TBool), <<LArm(<<TRUE>>, <<"TRUE">>, "rest", TOpt(TRef("r_uni")))>>, <<Fld("", TVoid)>>)),
  Fld("r_tdef", TOpt(TRef("r_elem"))),
  Fld("r_elem", TStruct(<<Fld("val", Sized(TOpaque(4), "4")), Fld("tl", TRef("r_tdef"))>>)),
  Fld("typedefoftypedef", TRef("tcolor")),
  Fld("nest2", Sized(TVarray(2, TStruct(<<Fld("a", Sized(TVarray(2, TStruct(<<Fld("b", Sized(TArray(2, TUint), "2"))>>)), "2"))>>)), "2")),
  Fld("nest3", Sized(TArray(2, TStruct(<<Fld("a", Sized(TArray(2, TStruct(<<Fld("b", Sized(TArray(2, TStruct(<<Fld("c", TInt)>>)), "2"))>>)), "2"))>>)), "2")),
  Fld("nest5", Nest(5)),
  Fld("nest7", Nest(7)),
  Fld("nestu", NestU(5)),
  Fld("two", TStruct(<<Fld("a", Sized(TVarray(3, TInt), "3")), Fld("b", Sized(TVarray(3, TUint), "3")), Fld("c", TVarray(-1, TBool)), Fld("d", Sized(TArray(2, THyper), "2"))>>)),
  Fld("voids", TStruct(<<Fld("", TVoid), Fld("a", TInt), Fld("", TVoid), Fld("b", TUint)>>)),
  Fld("wide", TStruct([i \in 1..24 |-> Fld("f" \o ToString(i), <<TInt, TUint, TBool, TUhyper, Sized(TOpaque(3), "3"), Sized(TFixed(5), "5")>>[(i % 6) + 1])])),
  Fld("order", TStruct(<<Fld("a", TOpaque(-1)), Fld("b", TString(-1)), Fld("c", TOpaque(-1)), Fld("d", Sized(TFixed(6), "6")), Fld("e", TOpaque(-1))>>)),
  Fld("optopt", TStruct(<<Fld("a", TOpt(TRef("topt"))), Fld("b", TOpt(TRef("topq")))>>)),
  Fld("type", TStruct(<<Fld("map", TInt), Fld("range", TRef("func")), Fld("chan", Sized(TVarray(3, TRef("interface")), "K3"))>>)),
  Fld("func", TEnum(<<It("var", U32(1), "1"), It("go", U32(2), "0x2"), It("defer", U32(8), "010")>>)),
  Fld("interface", TUnion(Fld("select", TRef("func")), <<LArm(<<U32(1), U32(8)>>, <<"var", "defer">>, "package", TInt)>>, <<Fld("import", TOpt(TUint))>>)),
  Fld("return", TStruct(<<Fld("if", TInt), Fld("else", TBool), Fld("for", TUint), Fld("break", TInt), Fld("continue", TInt), Fld("goto", TInt), Fld("fallthrough", TUhyper)>>)),
  Fld("Upper", TStruct(<<Fld("Already", TInt), Fld("a_b_c", TInt), Fld("x1", TInt), Fld("xs", TInt), Fld("v", TInt), Fld("i", Sized(TVarray(2, TInt), "2")), Fld("opted", TOpt(TInt)), Fld("err", TBool)>>)),
  Fld("bignum", TEnum(<<It("BN0", U32(0), "0"), It("BN1", U32(65535), "0xFFFF"), It("BN2", U32(65536), "65536"), It("BN3", U32(1000000), "1000000")>>)) >>

Consts == PreConsts

\* All definitions besides the preamble, in groups that are compiled separately.
Num(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
FormDefs(p) == LET D == Decls IN
               [i \in 1..Len(D) |-> Fld("p" \o ToString(p) \o "_" \o Num(i), Place(D[i], p))]
UnionDefs == LET U == Unions IN [i \in 1..Len(U) |-> Fld("un_" \o Num(i), U[i])]

\* Types that contain a codec written by the user (fussy): every declarator,
\* in every place.
UserDefs == LET D == DeclsOf(TRef("fussy"), 1) IN
            Flat([p \in 1..Places |-> [i \in 1..Len(D) |-> Fld("us" \o ToString(p) \o "_" \o Num(i), Place(D[i], p))]])
            \o << Fld("us_opt", TOpt(TRef("us_node"))),
                  Fld("us_node", TStruct(<<Fld("x", TRef("fussy")), Fld("next", TRef("us_opt")), Fld("z", TString(-1))>>)) >>

\* The environment of a sequence of definitions.
EnvOf(defs) == [x \in {defs[i].n : i \in 1..Len(defs)} |->
                  (CHOOSE i \in 1..Len(defs) : defs[i].n = x)]
MkEnv(defs) == LET ix == EnvOf(defs) IN [x \in DOMAIN ix |-> defs[ix[x]].t]
=============================================================================
