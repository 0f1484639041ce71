------------------------------ MODULE SunRpc ------------------------------
(* The data types, constants and programs of RFC 1057. *)
EXTENDS Xdr
LOCAL It(n, v) == [n |-> n, v |-> v]
LOCAL Proc(n, v, a, r) == [n |-> n, v |-> v, a |-> a, r |-> r]

SunRpcConsts == <<
  [n |-> "PMAP_PORT", v |-> 111],
  [n |-> "IPPROTO_TCP", v |-> 6],
  [n |-> "IPPROTO_UDP", v |-> 17]>>

SunRpcDefs == <<
  Fld("auth_flavor", TEnum(<<It("AUTH_NONE", U32(0)), It("AUTH_UNIX", U32(1)), It("AUTH_SHORT", U32(2)), It("AUTH_DES", U32(3))>>)),
  Fld("opaque_auth", TStruct(<<Fld("flavor", TRef("auth_flavor")), Fld("body", TOpaque(400))>>)),
  Fld("msg_type", TEnum(<<It("CALL", U32(0)), It("REPLY", U32(1))>>)),
  Fld("reply_stat", TEnum(<<It("MSG_ACCEPTED", U32(0)), It("MSG_DENIED", U32(1))>>)),
  Fld("accept_stat", TEnum(<<It("SUCCESS", U32(0)), It("PROG_UNAVAIL", U32(1)), It("PROG_MISMATCH", U32(2)), It("PROC_UNAVAIL", U32(3)), It("GARBAGE_ARGS", U32(4)), It("SYSTEM_ERR", U32(5))>>)),
  Fld("reject_stat", TEnum(<<It("RPC_MISMATCH", U32(0)), It("AUTH_ERROR", U32(1))>>)),
  Fld("auth_stat", TEnum(<<It("AUTH_BADCRED", U32(1)), It("AUTH_REJECTEDCRED", U32(2)), It("AUTH_BADVERF", U32(3)), It("AUTH_REJECTEDVERF", U32(4)), It("AUTH_TOOWEAK", U32(5))>>)),
  Fld("rpc_msg", TStruct(<<Fld("xid", TUint), Fld("body", TUnion(Fld("mtype", TRef("msg_type")), <<Arm(<<U32(0)>>, "cbody", TRef("call_body")), Arm(<<U32(1)>>, "rbody", TRef("reply_body"))>>, <<>>))>>)),
  Fld("call_body", TStruct(<<Fld("rpcvers", TUint), Fld("prog", TUint), Fld("vers", TUint), Fld("proc", TUint), Fld("cred", TRef("opaque_auth")), Fld("verf", TRef("opaque_auth"))>>)),
  Fld("reply_body", TUnion(Fld("stat", TRef("reply_stat")), <<Arm(<<U32(0)>>, "areply", TRef("accepted_reply")), Arm(<<U32(1)>>, "rreply", TRef("rejected_reply"))>>, <<>>)),
  Fld("accepted_reply", TStruct(<<Fld("verf", TRef("opaque_auth")), Fld("reply_data", TUnion(Fld("stat", TRef("accept_stat")), <<Arm(<<U32(0)>>, "results", TFixed(0)), Arm(<<U32(2)>>, "mismatch_info", TStruct(<<Fld("low", TUint), Fld("high", TUint)>>))>>, <<Fld("", TVoid)>>))>>)),
  Fld("rejected_reply", TUnion(Fld("stat", TRef("reject_stat")), <<Arm(<<U32(0)>>, "mismatch_info", TStruct(<<Fld("low", TUint), Fld("high", TUint)>>)), Arm(<<U32(1)>>, "astat", TRef("auth_stat"))>>, <<>>)),
  Fld("auth_unix", TStruct(<<Fld("stamp", TUint), Fld("machinename", TString(255)), Fld("uid", TUint), Fld("gid", TUint), Fld("gids", TVarray(16, TUint))>>)),
  Fld("mapping", TStruct(<<Fld("prog", TUint), Fld("vers", TUint), Fld("prot", TUint), Fld("port", TUint)>>)),
  Fld("pmaplist", TOpt(TRef("pmaplistelem"))),
  Fld("pmaplistelem", TStruct(<<Fld("map", TRef("mapping")), Fld("next", TRef("pmaplist"))>>)),
  Fld("call_args", TStruct(<<Fld("prog", TUint), Fld("vers", TUint), Fld("proc", TUint), Fld("args", TOpaque(-1))>>)),
  Fld("call_result", TStruct(<<Fld("port", TUint), Fld("res", TOpaque(-1))>>)),
  Fld("uint32", TUint),
  Fld("xbool", TBool)>>

SunRpcProgs == <<
  [n |-> "PMAP_PROG", v |-> 100000, vers |-> <<
     [n |-> "PMAP_VERS", v |-> 2, procs |-> <<
       Proc("PMAPPROC_NULL", 0, TVoid, TVoid),
       Proc("PMAPPROC_SET", 1, TRef("mapping"), TRef("xbool")),
       Proc("PMAPPROC_UNSET", 2, TRef("mapping"), TRef("xbool")),
       Proc("PMAPPROC_GETPORT", 3, TRef("mapping"), TRef("uint32")),
       Proc("PMAPPROC_DUMP", 4, TVoid, TRef("pmaplist")),
       Proc("PMAPPROC_CALLIT", 5, TRef("call_args"), TRef("call_result"))>>]>>]>>
=============================================================================
