----------------------------- MODULE XdrGrammar -----------------------------
(***************************************************************************)
(* The grammar of the XDR and RPC languages as the generator supports it   *)
(* (RFC 4506 and RFC 1057 without negative constants), as a predictive     *)
(* machine: a stack of symbols, driven by one token at a time.  The same   *)
(* table generates sentences and recognises them.                          *)
(*                                                                         *)
(* A production is [on: the tokens it is predicted on, to: its symbols,    *)
(* un: it stands for something that the generator does not support].  A    *)
(* nonterminal's production with on = {} is the one taken on any other     *)
(* token.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Keywords == {"const", "typedef", "enum", "struct", "union", "switch", "case", "default", "void", "opaque", "string", "unsigned",
             "int", "hyper", "float", "double", "quadruple", "bool", "program", "version"}
Marks == {"=", ";", "<", ">", "[", "]", "{", "}", ",", ":", "*", "(", ")"}
\* Identifiers: among them words that mean something to Go, or nearly are keywords.
Ids == {"x", "Foo", "a_b", "n1", "TRUE", "func", "range", "type", "var", "go", "map", "chan", "return", "interface", "package", "import", "select",
        "if", "else", "for", "break", "continue", "goto", "fallthrough", "defer", "true", "nil", "Int", "Void", "voids", "int32", "uint32", "append",
        "ints", "unsignedint", "Struct", "STRUCT", "programs", "Opaque", "xs", "v", "__arraysz", "len"}
Nums == {"0", "5", "017", "0x1F", "0XfF", "4294967295", "1", "00"}
\* What is no token at all.
Illegal == {"-", "-5", "+", "%", "#", "@", "$", "!", "~", "\"s\"", "'c'", "1.5", "08", "0x", "\\", "?", "`r`", "...", ".", "&", "|", "^", "/", "==", "<<", ">>",
            "<=", ">=", ":=", "++", "--", "&&", "1e3", "5i", "*/", "\"s", "'", "->", "<-", "+=", "!=", "0x1.8p1", "&^"}
Kind(tok) == IF tok \in Keywords \/ tok \in Marks THEN tok ELSE IF tok \in Ids THEN "ID" ELSE IF tok \in Nums THEN "NUM" ELSE "ILLEGAL"
Terminals == Keywords \cup Marks \cup {"ID", "NUM"}

Pr(on, to)  == [on |-> on, to |-> to, un |-> FALSE]
Un(on, to)  == [on |-> on, to |-> to, un |-> TRUE]
Eps         == [on |-> {}, to |-> <<>>, un |-> FALSE]
TypeStart == {"unsigned", "int", "hyper", "float", "double", "quadruple", "bool", "enum", "struct", "union", "ID"}
DeclStart == TypeStart \cup {"opaque", "string", "void"}
Grammar == [
  Spec    |-> <<Eps, Pr({"const", "typedef", "enum", "struct", "union", "program"}, <<"Defn", "Spec">>)>>,
  Defn    |-> <<Pr({"const"}, <<"const", "ID", "=", "NUM", ";">>),
                Pr({"typedef"}, <<"typedef", "Decl", ";">>),
                Pr({"enum"}, <<"enum", "ID", "Enum", ";">>),
                Pr({"struct"}, <<"struct", "ID", "Struct", ";">>),
                Pr({"union"}, <<"union", "ID", "Union", ";">>),
                Pr({"program"}, <<"program", "ID", "{", "Versions", "}", "=", "NUM", ";">>)>>,
  Decl    |-> <<Pr({"void"}, <<"void">>),
                Pr({"opaque"}, <<"opaque", "ID", "Sized">>),
                Pr({"string"}, <<"string", "ID", "Bound">>),
                Pr(TypeStart, <<"Type", "Named">>)>>,
  Named   |-> <<Pr({"ID"}, <<"ID", "Suffix">>), Pr({"*"}, <<"*", "ID">>)>>,
  Suffix  |-> <<Eps, Pr({"[", "<"}, <<"Sized">>)>>,
  Sized   |-> <<Pr({"["}, <<"[", "Val", "]">>), Pr({"<"}, <<"Bound">>)>>,
  Bound   |-> <<Pr({"<"}, <<"<", "Max", ">">>)>>,
  Max     |-> <<Eps, Pr({"ID", "NUM"}, <<"Val">>)>>,
  Val     |-> <<Pr({"NUM"}, <<"NUM">>), Pr({"ID"}, <<"ID">>)>>,
  Type    |-> <<Pr({"int"}, <<"int">>), Pr({"hyper"}, <<"hyper">>), Pr({"bool"}, <<"bool">>), Pr({"ID"}, <<"ID">>),
                Pr({"unsigned"}, <<"unsigned", "Int">>), Pr({"struct"}, <<"struct", "Struct">>), Pr({"union"}, <<"union", "Union">>),
                Un({"float"}, <<"float">>), Un({"double"}, <<"double">>), Un({"quadruple"}, <<"quadruple">>), Un({"enum"}, <<"enum", "Enum">>)>>,
  Int     |-> <<Pr({"int"}, <<"int">>), Pr({"hyper"}, <<"hyper">>)>>,
  Enum    |-> <<Pr({"{"}, <<"{", "Item", "Items", "}">>)>>,
  Item    |-> <<Pr({"ID"}, <<"ID", "=", "Val">>)>>,
  Items   |-> <<Eps, Pr({","}, <<",", "Item", "Items">>)>>,
  Struct  |-> <<Pr({"{"}, <<"{", "Decls", "}">>)>>,
  Decls   |-> <<Eps, Pr(DeclStart, <<"Decl", ";", "Decls">>)>>,
  Union   |-> <<Pr({"switch"}, <<"switch", "(", "Switch", ")", "{", "Cases", "Default", "}">>)>>,
  Switch  |-> <<Pr(DeclStart \ {"void"}, <<"Decl">>), Un({"void"}, <<"void">>)>>,
  Cases   |-> <<Eps, Pr({"case"}, <<"case", "Val", ":", "Labels", "Decl", ";", "Cases">>)>>,
  Labels  |-> <<Eps, Pr({"case"}, <<"case", "Val", ":", "Labels">>)>>,
  Default |-> <<Eps, Pr({"default"}, <<"default", ":", "Decl", ";">>)>>,
  Versions |-> <<Eps, Pr({"version"}, <<"version", "ID", "{", "Procs", "}", "=", "NUM", ";", "Versions">>)>>,
  Procs   |-> <<Eps, Pr(TypeStart \cup {"void"}, <<"PType", "ID", "(", "PType", ")", "=", "NUM", ";", "Procs">>)>>,
  PType   |-> <<Pr({"void"}, <<"void">>), Pr({"int"}, <<"int">>), Pr({"hyper"}, <<"hyper">>), Pr({"bool"}, <<"bool">>), Pr({"ID"}, <<"ID">>),
                Pr({"unsigned"}, <<"unsigned", "Int">>),
                Un({"struct"}, <<"struct", "Struct">>), Un({"union"}, <<"union", "Union">>), Un({"enum"}, <<"enum", "Enum">>),
                Un({"float"}, <<"float">>), Un({"double"}, <<"double">>), Un({"quadruple"}, <<"quadruple">>)>> ]
Nonterminals == DOMAIN Grammar

\* The grammar is predictive: productions of a nonterminal are told apart by
\* one token, and every symbol is known.
ASSUME \A n \in Nonterminals :
         /\ \A i, j \in 1..Len(Grammar[n]) : i # j => Grammar[n][i].on \cap Grammar[n][j].on = {}
         /\ \A i \in 1..Len(Grammar[n]) : \A j \in 1..Len(Grammar[n][i].to) : Grammar[n][i].to[j] \in Nonterminals \cup Terminals
         /\ \A i \in 1..Len(Grammar[n]) : Grammar[n][i].on = {} => i = 1

\* The production of nonterminal n on a token of kind k: 0 if there is none.
Predict(n, k) ==
  LET S == {i \in 1..Len(Grammar[n]) : k \in Grammar[n][i].on} IN
  IF S # {} THEN CHOOSE i \in S : TRUE ELSE IF Grammar[n][1].on = {} THEN 1 ELSE 0

\* Reads tokens ks[i..] with a stack: [ok: they are a sentence, un: with something unsupported].
RECURSIVE Read(_, _, _, _)
Read(st, ks, i, un) ==
  IF st = <<>> THEN [ok |-> i > Len(ks), un |-> un]
  ELSE LET k == IF i > Len(ks) THEN "END" ELSE ks[i] IN
       IF Head(st) \notin Nonterminals
       THEN IF Head(st) = k THEN Read(Tail(st), ks, i + 1, un) ELSE [ok |-> FALSE, un |-> un]
       ELSE LET p == Predict(Head(st), k) IN
            IF p = 0 THEN [ok |-> FALSE, un |-> un]
            ELSE Read(Grammar[Head(st)][p].to \o Tail(st), ks, i, un \/ Grammar[Head(st)][p].un)
\* A sequence of tokens is accepted, rejected.
Reading(toks) == LET ks == TLCEval([i \in 1..Len(toks) |-> Kind(toks[i])]) IN Read(<<"Spec">>, ks, 1, FALSE)
Accepted(toks) == LET r == TLCEval(Reading(toks)) IN r.ok /\ ~r.un

----------------------------------------------------------------------------
\* Layout: what stands between tokens.  Words need something between them.
Blanks == << " ", "\n", "", "\t", "/**/", "\r\n", "/* c */", " /* ; { \n } */ ", "// l\n", "\n\n", " // struct {\n", "/***/", "\r", "/*\n*/", "  ", "/* // */" >>
IsWord(tok) == tok \notin Marks
Between(a, b, s) == IF s = "" /\ IsWord(a) /\ IsWord(b) THEN " " ELSE s
RECURSIVE TextFrom(_, _, _, _)
\* The text of tokens toks[i..] with blanks chosen by (m, c): blank number (m * i + c) after token i.
TextFrom(toks, i, m, c) ==
  IF i > Len(toks) THEN ""
  ELSE toks[i] \o (IF i = Len(toks) THEN Blanks[((m * i + c) % Len(Blanks)) + 1]
                   ELSE Between(toks[i], toks[i + 1], Blanks[((m * i + c) % Len(Blanks)) + 1]))
       \o TextFrom(toks, i + 1, m, c)
Text(toks, m, c) == TextFrom(toks, 1, m, c)
=============================================================================
