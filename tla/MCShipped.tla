------------------------------ MODULE MCShipped ------------------------------
(* Writes out the schemas of the two shipped packages. *)
EXTENDS SunRpc, Nfs3, Json, IOUtils
ASSUME JsonSerialize(IOEnv.OUT,
  [rfc1057 |-> [consts |-> SunRpcConsts, defs |-> SunRpcDefs, progs |-> SunRpcProgs],
   rfc1813 |-> [consts |-> Nfs3Consts, defs |-> Nfs3Defs, progs |-> Nfs3Progs]])
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
