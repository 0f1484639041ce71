---------------------------- MODULE GrammarCases ----------------------------
(***************************************************************************)
(* Texts for the generator and whether it must accept them: sentences in   *)
(* many layouts, and every way to change one token of them.  A behaviour   *)
(* derives a sentence and then changes it.                                 *)
(***************************************************************************)
EXTENDS XdrGrammar, Json, CSV, IOUtils

CONSTANTS Random, MaxLen
OutDir == IOEnv.OUT
Shard  == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)
Salt   == atoi(IOEnv.SALT)

\* Sentences that use every production.
Base == <<
  <<"const", "x", "=", "0x1F", ";">>,
  <<"typedef", "unsigned", "int", "Foo", "[", "5", "]", ";">>,
  <<"typedef", "opaque", "x", "<", "a_b", ">", ";", "typedef", "void", ";">>,
  <<"typedef", "string", "x", "<", ">", ";", "typedef", "Foo", "*", "n1", ";">>,
  <<"enum", "x", "{", "TRUE", "=", "5", ",", "func", "=", "n1", "}", ";">>,
  <<"struct", "type", "{", "hyper", "range", "<", "0", ">", ";", "void", ";", "bool", "*", "x", ";", "}", ";">>,
  <<"union", "x", "switch", "(", "int", "n1", ")", "{", "case", "0", ":", "case", "Foo", ":", "bool", "v", ";", "default", ":", "void", ";", "}", ";">>,
  <<"typedef", "struct", "{", "union", "switch", "(", "bool", "x", ")", "{", "}", "xs", ";", "}", "Foo", "<", "017", ">", ";">>,
  <<"program", "x", "{", "version", "Foo", "{", "void", "n1", "(", "int", ")", "=", "0", ";", "Foo", "x", "(", "void", ")", "=", "1", ";", "}", "=", "1", ";", "}", "=", "5", ";">>,
  <<"program", "map", "{", "}", "=", "4294967295", ";", "struct", "x", "{", "}", ";">>,
  <<"program", "x", "{", "version", "go", "{", "unsigned", "hyper", "n1", "(", "bool", ")", "=", "0", ";", "hyper", "v", "(", "unsigned", "int", ")", "=", "1", ";", "}", "=", "0", ";",
    "version", "if", "{", "}", "=", "1", ";", "}", "=", "017", ";">>,
  <<"typedef", "opaque", "x", "[", "0XfF", "]", ";", "typedef", "unsigned", "hyper", "var", ";", "typedef", "hyper", "Foo", "[", "x", "]", ";">>,
  <<>> >>
\* Sentences with something unsupported.
Unsupported == <<
  <<"typedef", "float", "x", ";">>, <<"typedef", "double", "x", "[", "5", "]", ";">>, <<"struct", "x", "{", "int", "v", ";", "quadruple", "n1", ";", "}", ";">>,
  <<"const", "x", "=", "5", ";", "struct", "Foo", "{", "float", "v", "<", ">", ";", "}", ";">>,
  <<"typedef", "enum", "{", "x", "=", "5", "}", "Foo", ";">>, <<"struct", "x", "{", "enum", "{", "x", "=", "5", "}", "Foo", ";", "}", ";">>,
  <<"union", "x", "switch", "(", "void", ")", "{", "}", ";">>, <<"union", "x", "switch", "(", "int", "v", ")", "{", "case", "5", ":", "double", "*", "n1", ";", "}", ";">>,
  <<"union", "x", "switch", "(", "int", "v", ")", "{", "default", ":", "float", "n1", ";", "}", ";">>,
  <<"program", "x", "{", "version", "Foo", "{", "float", "n1", "(", "void", ")", "=", "0", ";", "}", "=", "1", ";", "}", "=", "5", ";">>,
  <<"program", "x", "{", "version", "Foo", "{", "void", "n1", "(", "double", ")", "=", "0", ";", "}", "=", "1", ";", "}", "=", "5", ";">>,
  <<"program", "x", "{", "version", "Foo", "{", "void", "n1", "(", "struct", "{", "}", ")", "=", "0", ";", "}", "=", "1", ";", "}", "=", "5", ";">>,
  <<"program", "x", "{", "version", "Foo", "{", "enum", "{", "x", "=", "1", "}", "n1", "(", "void", ")", "=", "0", ";", "}", "=", "1", ";", "}", "=", "5", ";">>,
  <<"program", "x", "{", "version", "Foo", "{", "void", "n1", "(", "quadruple", ")", "=", "0", ";", "void", "v", "(", "union", "switch", "(", "int", "x", ")", "{", "}", ")", "=", "5", ";", "}", "=", "1", ";", "}", "=", "5", ";">> >>
ASSUME \A i \in 1..Len(Base) : Accepted(Base[i])
ASSUME \A i \in 1..Len(Unsupported) : Reading(Unsupported[i]) = [ok |-> TRUE, un |-> TRUE]

\* The productions that reading a sentence takes: together, all of them.
RECURSIVE Uses(_, _, _)
Uses(st, ks, i) ==
  IF st = <<>> THEN {}
  ELSE LET k == IF i > Len(ks) THEN "END" ELSE ks[i] IN
       IF Head(st) \notin Nonterminals THEN Uses(Tail(st), ks, i + 1)
       ELSE LET p == Predict(Head(st), k) IN {<<Head(st), p>>} \cup Uses(Grammar[Head(st)][p].to \o Tail(st), ks, i)
UsesOf(toks) == LET ks == TLCEval([i \in 1..Len(toks) |-> Kind(toks[i])]) IN Uses(<<"Spec">>, ks, 1)
ASSUME LET U == UNION ({UsesOf(Base[i]) : i \in 1..Len(Base)} \cup {UsesOf(Unsupported[i]) : i \in 1..Len(Unsupported)}) IN
       \A n \in Nonterminals : \A p \in 1..Len(Grammar[n]) : <<n, p>> \in U \/ PrintT(<<"never used", n, p>>) = FALSE

\* One token per kind, to put in places.
Probe == <<"const", "typedef", "enum", "struct", "union", "switch", "case", "default", "void", "opaque", "string", "unsigned", "int", "hyper",
           "float", "double", "quadruple", "bool", "program", "version", "=", ";", "<", ">", "[", "]", "{", "}", ",", ":", "*", "(", ")", "x", "5">>
IllegalSeq == SetToSeq(Illegal)

VARIABLES stack, toks, todo, h, fresh
vars == <<stack, toks, todo, h, fresh>>

Case(t, m, c, why) == [text |-> Text(t, m, c), ok |-> Accepted(t), why |-> why]
Without(t, k) == SubSeq(t, 1, k - 1) \o SubSeq(t, k + 1, Len(t))
With(t, k, x) == SubSeq(t, 1, k - 1) \o <<x>> \o SubSeq(t, k, Len(t))
Swap(t, k) == [t EXCEPT ![k] = t[k + 1], ![k + 1] = t[k]]
Num(k, j) == k * 37 + j * 11 + Salt

\* --- enumerated.  todo: what will be done to the sentence.
Layouts(t) == {Case(t, m, c, "layout") : m \in {0, 1, 3, 5}, c \in 0..(Len(Blanks) - 1)}
\* An open comment, string or the like at the end.
Opens == <<"/*", "/* x ", "/* *", "/*/", "\"x", "`x", "'", "/">>
Changes(t, k) ==
  {Case(Without(t, k), 1, Num(k, 1), "delete"), Case(SubSeq(t, 1, k - 1), 3, Num(k, 2), "truncate"), Case(With(t, k, t[k]), 0, Num(k, 3), "repeat")}
  \cup (IF k < Len(t) THEN {Case(Swap(t, k), 5, Num(k, 4), "swap")} ELSE {})
  \cup {Case([t EXCEPT ![k] = Probe[j]], j % 4, Num(k, j), "replace") : j \in 1..Len(Probe)}
  \cup {Case(With(t, k, Probe[j]), j % 3, Num(k, j), "insert") : j \in 1..Len(Probe)}
  \cup {Case(With(t, k, IllegalSeq[j]), 0, 0, "illegal") : j \in {j \in 1..Len(IllegalSeq) : (j + k) % 4 = Salt % 4}}
  \cup {Case([t EXCEPT ![k] = IllegalSeq[j]], 0, 1, "illegal") : j \in {j \in 1..Len(IllegalSeq) : (j + k) % 4 = (Salt + 2) % 4}}
  \cup (IF k = Len(t) THEN {[text |-> Text(t, 0, 0) \o Opens[j], ok |-> FALSE, why |-> "open"] : j \in 1..Len(Opens)} ELSE {})
\* Blocks of tokens, which end where declarations, clauses and bodies do:
\* two of them exchanged, one left out, one twice, one put elsewhere.
Ends(t) == {0} \cup {k \in 1..Len(t) : t[k] \in {";", "{", "}", ":", ",", ")", "("}}
Block(t, a, b) == SubSeq(t, a + 1, b)
Moves(t, a) ==
  LET E == {b \in Ends(t) : b > a} IN
  UNION {{Case(Block(t, 0, a) \o Block(t, b, Len(t)), 1, Num(a, b), "block left out"),
          Case(Block(t, 0, b) \o Block(t, a, Len(t)), 1, Num(a, b), "block twice")}
         \cup {Case(Block(t, 0, a) \o Block(t, b, c) \o Block(t, a, b) \o Block(t, c, Len(t)), 3, Num(a, b + c), "blocks exchanged") : c \in {c \in E : c > b}}
         : b \in E}
Sentences == Base \o Unsupported
NextEx ==
  /\ h = <<>>
  /\ \E i \in 1..Len(Sentences) :
       \E t \in {Sentences[i]} :
          \/ i % Shards = Shard /\ \E c \in Layouts(t) : h' = <<c>>
          \/ \E a \in {a \in Ends(t) : (a + i) % Shards = Shard} : \E c \in Moves(t, a) : h' = <<c>>
          \/ \E k \in {k \in 1..Len(t) : (k + i) % Shards = Shard} : \E c \in Changes(t, k) : h' = <<c>>
  /\ UNCHANGED <<stack, toks, todo, fresh>>

\* --- random: a derivation, step by step, and then some changes.
Draw(S) == RandomElement(S)
IdSeq == SetToSeq(Ids)  NumSeq == SetToSeq(Nums)
Token(s, x) == CASE s = "ID" -> IdSeq[(x % Len(IdSeq)) + 1] [] s = "NUM" -> NumSeq[(x % Len(NumSeq)) + 1] [] OTHER -> s
Derive ==
  /\ stack # <<>>
  /\ \E x \in {Draw(1..10000)}, s \in {Head(stack)} :
       IF s \in Nonterminals
       THEN \* once it is long, whatever ends it soonest: the first production of each is
            \E p \in {IF Len(toks) + Len(stack) > MaxLen THEN 1 ELSE (x % Len(Grammar[s])) + 1} :
              /\ stack' = Grammar[s][p].to \o Tail(stack)
              /\ UNCHANGED toks
       ELSE stack' = Tail(stack) /\ toks' = Append(toks, Token(s, x))
  /\ UNCHANGED <<todo, h, fresh>>
Change ==
  /\ stack = <<>> /\ todo > 0 /\ toks # <<>>
  /\ \E k \in {Draw(1..Len(toks))}, w \in {Draw(1..8)}, x \in {Draw(1..10000)} :
       toks' = CASE w = 1 -> Without(toks, k)
                 [] w = 2 /\ k < Len(toks) -> Swap(toks, k)
                 [] w = 3 -> [toks EXCEPT ![k] = Probe[(x % Len(Probe)) + 1]]
                 [] w = 4 -> With(toks, k, Probe[(x % Len(Probe)) + 1])
                 [] w = 5 -> SubSeq(toks, 1, k - 1)
                 [] w \in {6, 7} -> \* a block of one of the sentences
                      LET u == Sentences[(x % Len(Sentences)) + 1]
                          E == SetToSortSeq(Ends(u), LAMBDA p, q : p < q)
                          a == ((x \div 31) % Len(E)) + 1  b == ((x \div 7) % (Len(E) - a + 1)) + a
                          f == Ends(toks)  g == IF k \in f THEN k ELSE CHOOSE p \in f : p < k /\ \A q \in f : q <= p \/ q > k
                      IN  Block(toks, 0, g) \o Block(u, E[a], E[b]) \o Block(toks, g, Len(toks))
                 [] OTHER -> With(toks, k, toks[(x % Len(toks)) + 1])
  /\ todo' = todo - 1 /\ fresh' = FALSE /\ UNCHANGED <<stack, h>>
Write ==
  /\ stack = <<>> /\ (todo = 0 \/ toks = <<>>) /\ h = <<>>
  /\ \E m \in {Draw(0..50)}, c \in {Draw(0..50)} : h' = <<Case(toks, m, c, "random")>>
  /\ UNCHANGED <<stack, toks, todo, fresh>>
Init == /\ toks = <<>> /\ h = <<>> /\ fresh = TRUE
        /\ IF Random THEN stack = <<"Defn", "Spec">> /\ todo = Draw(0..2) ELSE stack = <<>> /\ todo = 0
Next == IF Random THEN Derive \/ Change \/ Write ELSE NextEx
Emit == /\ h # <<>>
        /\ CSVWrite("%1$s", <<ToJson(h[1])>>, OutDir \o "/" \o IOEnv.SHARD)
        /\ FALSE
Spec == Init /\ [][Next \/ Emit]_vars

\* What the grammar derives, it reads: deciding whether a text is a sentence
\* and making sentences are the same thing.
DerivationsRead == Random /\ stack = <<>> /\ fresh => Reading(toks).ok
=============================================================================
