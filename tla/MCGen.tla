------------------------------- MODULE MCGen -------------------------------
(***************************************************************************)
(* How the generator goes about its files, one operation at a time.  It    *)
(* gives up where its options, the text or the text it makes are no good,  *)
(* and removes what it made in between.  Whatever happens, it ends with    *)
(* all of its outputs written or none touched, and nothing else left.      *)
(* Early: the first output is written before the second is known to be     *)
(* good; TLC must find that this is wrong (test of the specification).     *)
(* Straight: it writes into the outputs; wrong as well.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Early, Straight
Paths == {"o", "t", "otmp", "ttmp"}
VARIABLES pc, disk, split, stale, start, verdict
vars == <<pc, disk, split, stale, start, verdict>>
\* stale: temporary files of a run that was killed.
Init == /\ split \in BOOLEAN /\ stale \in SUBSET {"otmp", "ttmp"}
        /\ \E old \in SUBSET {"o", "t"} : disk = [p \in Paths |-> IF p \in old \cup stale THEN "old" ELSE "absent"]
        /\ start = disk /\ pc = "open" /\ verdict = ""
Mine == {"otmp"} \cup (IF split THEN {"ttmp"} ELSE {})
Put(p, x) == disk' = [disk EXCEPT ![p] = x]
GiveUp(made) == /\ disk' = [p \in Paths |-> IF p \in made THEN "absent" ELSE disk[p]]
                /\ pc' = "end" /\ verdict' = "fail" /\ UNCHANGED <<split, stale, start>>
Go(to) == pc' = to /\ UNCHANGED <<split, stale, start, verdict>>
Dest(tmp, p) == IF Straight THEN p ELSE tmp
Open == /\ pc = "open"
        /\ IF "otmp" \in stale THEN GiveUp({}) ELSE Put(Dest("otmp", "o"), "part") /\ Go("opent")
OpenT == /\ pc = "opent"
         /\ IF ~split THEN UNCHANGED disk /\ Go("parse")
            ELSE IF "ttmp" \in stale THEN GiveUp({"otmp"}) ELSE Put(Dest("ttmp", "t"), "part") /\ Go("parse")
Parse == /\ pc = "parse" /\ \/ UNCHANGED disk /\ Go("form")
                            \/ GiveUp(Mine)
Form == /\ pc = "form" /\ \/ GiveUp(Mine)
                          \/ IF Early THEN Put("o", "new") /\ Go("formt") ELSE UNCHANGED disk /\ Go("formt")
FormT == /\ pc = "formt" /\ \/ split /\ GiveUp(Mine)
                            \/ UNCHANGED disk /\ Go("put")
Write == /\ pc = "put" /\ Put("o", "new") /\ Go("putt")
WriteT == /\ pc = "putt" /\ (IF split THEN Put("t", "new") ELSE UNCHANGED disk) /\ Go("clean")
Clean == /\ pc = "clean" /\ disk' = [p \in Paths |-> IF p \in Mine THEN "absent" ELSE disk[p]]
         /\ pc' = "end" /\ verdict' = "ok" /\ UNCHANGED <<split, stale, start>>
Next == Open \/ OpenT \/ Parse \/ Form \/ FormT \/ Write \/ WriteT \/ Clean
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllOrNothing == pc = "end" =>
  /\ verdict = "fail" => disk = start
  /\ verdict = "ok" => /\ disk["o"] = "new" /\ disk["t"] = (IF split THEN "new" ELSE start["t"])
                       /\ \A p \in {"otmp", "ttmp"} : disk[p] = (IF p \in Mine THEN "absent" ELSE start[p])
\* Until it has decided, it touches no output.
OutputsLast == pc \in {"open", "opent", "parse", "form", "formt"} => disk["o"] = start["o"] /\ disk["t"] = start["t"]
Ends == <>(pc = "end")
=============================================================================
