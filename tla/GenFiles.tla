------------------------------ MODULE GenFiles ------------------------------
(***************************************************************************)
(* What runs of the generator do to the files around them: all of their    *)
(* outputs or nothing.  A history is a directory with files in it and a    *)
(* few runs; its outcome is computed from whether each run accepts its     *)
(* text.  MCGen is how the generator goes about it.                        *)
(***************************************************************************)
EXTENDS XdrGrammar, Json, CSV, IOUtils

\* Texts, as tokens.
Good1 == <<"const", "x", "=", "5", ";", "enum", "Foo", "{", "n1", "=", "0", ",", "v", "=", "x", "}", ";", "struct", "xs", "{", "Foo", "v", ";", "opaque", "go", "<", "x", ">", ";", "}", ";">>
Good2 == <<"union", "Int", "switch", "(", "bool", "v", ")", "{", "case", "TRUE", ":", "hyper", "n1", "<", ">", ";", "default", ":", "void", ";", "}", ";",
           "program", "programs", "{", "version", "Void", "{", "Int", "type", "(", "void", ")", "=", "1", ";", "}", "=", "1", ";", "}", "=", "0x1F", ";">>
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
Texts == [
  good1 |-> Good1, good2 |-> Good2, empty |-> <<>>, large |-> Times(Good1 \o Good2, 12),
  earlysyn |-> <<"struct", ";">> \o Good1, latesyn |-> Good1 \o Good2 \o <<"struct">>,
  earlylex |-> <<"%">> \o Good2, latelex |-> Good2 \o Good1 \o <<"#">>, latelarge |-> Times(Good1 \o Good2, 12) \o <<"typedef", "int", ";">>,
  unsup |-> Good1 \o <<"typedef", "float", "a_b", ";">>, unsupearly |-> <<"struct", "Foo", "{", "double", "v", ";", "}", ";">> \o Good2,
  openc |-> Good1 \o <<"/*">>, nosemi |-> SubSeq(Good1, 1, Len(Good1) - 1) ]
Names == DOMAIN Texts
Accept == [n \in Names |-> Accepted(Texts[n])]
ASSUME \A n \in Names : Accept[n] <=> n \in {"good1", "good2", "empty", "large"}

\* Options.  t: the types file, "" if none; x: others.  Failing ones: the
\* generator fails, or not, whatever it does without other files around.
Opts == << [o |-> "o.go", t |-> "", x |-> "", in |-> TRUE], [o |-> "o.go", t |-> "t.go", x |-> "", in |-> TRUE],
           [o |-> "sub/o.go", t |-> "t.go", x |-> "-p=abc", in |-> TRUE], [o |-> "o.go", t |-> "sub/t.go", x |-> "-unsigned-enum", in |-> TRUE],
           [o |-> "t.go", t |-> "o.go", x |-> "-const-type=uint64", in |-> TRUE],
           [o |-> "sub/o.go", t |-> "sub/t.go", x |-> "-d", in |-> TRUE],
           [o |-> "o.go", t |-> "t.go", x |-> "-const-type=1;", in |-> TRUE], [o |-> "o.go", t |-> "t.go", x |-> "-p=1;", in |-> TRUE],
           [o |-> "o.go", t |-> "none/t.go", x |-> "", in |-> TRUE], [o |-> "none/o.go", t |-> "t.go", x |-> "", in |-> TRUE],
           [o |-> "o.go", t |-> "t.go", x |-> "", in |-> FALSE], [o |-> "", t |-> "t.go", x |-> "", in |-> TRUE],
           [o |-> "o.go", t |-> "t.go", x |-> "-nonsense", in |-> TRUE] >>
\* What the options say about success: it is up to the text; it is impossible; it is up to the generator.
Say(o) == IF o.o = "" \/ ~o.in \/ o.x = "-nonsense" \/ o.o = "none/o.go" \/ o.t = "none/t.go" THEN "no"
          ELSE IF o.x \in {"-const-type=1;", "-p=1;"} THEN "any" ELSE "text"
Paths == {"o.go", "t.go", "sub/o.go", "sub/t.go"}
Outs(o) == {o.o} \cup (IF o.t = "" THEN {} ELSE {o.t})
Outcome(n, o) == IF Say(o) = "no" \/ ~Accept[n] THEN "fail" ELSE IF Say(o) = "any" THEN "any" ELSE "ok"

\* disk[p]: "absent", "old" or the index of the run in the history that wrote it.
VARIABLES disk, runs
vars == <<disk, runs>>
After(d, o, n, i) == IF Outcome(n, o) = "ok" THEN [p \in Paths |-> IF p \in Outs(o) THEN ToString(i) ELSE d[p]] ELSE d

Shard  == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)
Salt   == atoi(IOEnv.SALT)
CONSTANT Depth
Disks == {[p \in Paths |-> IF p \in S THEN "old" ELSE "absent"] : S \in {{}, {"o.go"}, {"t.go"}, Paths}}
Init == disk \in Disks /\ runs = <<[disk |-> disk, n |-> "", o |-> Opts[1], out |-> "", salt |-> Salt]>>
\* The first run: everything; then, depending on the salt, some.
Next ==
  /\ Len(runs) <= Depth
  /\ \E n \in Names, k \in 1..Len(Opts) :
       /\ LET s == Cardinality({m \in Names : Len(Texts[m]) < Len(Texts[n])}) + k * 5 + Len(runs) * 3 IN
          IF Len(runs) = 1 THEN (s + Cardinality({p \in Paths : disk[p] = "old"})) % Shards = Shard
          ELSE (s + Salt + Cardinality({p \in Paths : disk[p] = "absent"})) % 19 = 0
       /\ (\A i \in 2..Len(runs) : runs[i].out # "any")
       /\ disk' = After(disk, Opts[k], n, Len(runs))
       /\ runs' = Append(runs, [disk |-> disk', n |-> n, o |-> Opts[k], out |-> Outcome(n, Opts[k]), salt |-> Salt])
Emit == /\ Len(runs) > Depth \/ runs[Len(runs)].out = "any"
        /\ CSVWrite("%1$s", <<ToJson(runs)>>, IOEnv.OUT \o "/" \o IOEnv.SHARD)
        /\ FALSE
Spec == Init /\ [][Next \/ Emit]_vars

\* What the histories are about.
Failed(i) == runs[i].out = "fail"
FailureChangesNothing == \A i \in 2..Len(runs) : Failed(i) => runs[i].disk = runs[i - 1].disk
OnlyOutputsChange == \A i \in 2..Len(runs) : \A p \in Paths \ Outs(runs[i].o) : runs[i].disk[p] = runs[i - 1].disk[p]
SuccessWritesAll == \A i \in 2..Len(runs) : runs[i].out = "ok" => \A p \in Outs(runs[i].o) : runs[i].disk[p] = ToString(i - 1)
\* The texts themselves, in a layout that depends on the salt.
ASSUME CSVWrite("%1$s", <<ToJson([n \in Names |-> Text(Texts[n], 5, Salt)])>>, IOEnv.OUT \o "/texts" \o IOEnv.SHARD)
=============================================================================
