------------------------------- MODULE MCForms -------------------------------
(* Writes out the enumerated declaration forms. *)
EXTENDS XdrForms, Json, IOUtils
Groups == [p \in 1..Places |-> [n |-> "form" \o ToString(p), defs |-> FormDefs(p)]]
          \o << [n |-> "unions", defs |-> UnionDefs], [n |-> "misc", defs |-> Others1],
             [n |-> "user", defs |-> UserDefs] >>
ASSUME JsonSerialize(IOEnv.OUT, [consts |-> Consts, pre |-> PreDefs, groups |-> Groups])
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
