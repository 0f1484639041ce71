------------------------------- MODULE MCGlue -------------------------------
(* Writes out the programs and definitions of the glue specification. *)
EXTENDS GlueProgs, Json, IOUtils
ASSUME JsonSerialize(IOEnv.OUT, [consts |-> PreConsts, defs |-> Defs, progs |-> Programs])
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
