------------------------------ MODULE Nfs3 ------------------------------
(* The data types, constants and programs of RFC 1813. *)
EXTENDS Xdr
LOCAL It(n, v) == [n |-> n, v |-> v]
LOCAL Proc(n, v, a, r) == [n |-> n, v |-> v, a |-> a, r |-> r]

Nfs3Consts == <<
  [n |-> "PROGRAM", v |-> 100003],
  [n |-> "VERSION", v |-> 3],
  [n |-> "NFS3_FHSIZE", v |-> 64],
  [n |-> "NFS3_COOKIEVERFSIZE", v |-> 8],
  [n |-> "NFS3_CREATEVERFSIZE", v |-> 8],
  [n |-> "NFS3_WRITEVERFSIZE", v |-> 8],
  [n |-> "ACCESS3_READ", v |-> 1],
  [n |-> "ACCESS3_LOOKUP", v |-> 2],
  [n |-> "ACCESS3_MODIFY", v |-> 4],
  [n |-> "ACCESS3_EXTEND", v |-> 8],
  [n |-> "ACCESS3_DELETE", v |-> 16],
  [n |-> "ACCESS3_EXECUTE", v |-> 32],
  [n |-> "FSF3_LINK", v |-> 1],
  [n |-> "FSF3_SYMLINK", v |-> 2],
  [n |-> "FSF3_HOMOGENEOUS", v |-> 8],
  [n |-> "FSF3_CANSETTIME", v |-> 16],
  [n |-> "MNTPATHLEN3", v |-> 1024],
  [n |-> "MNTNAMLEN3", v |-> 255],
  [n |-> "FHSIZE3", v |-> 64]>>

Nfs3Defs == <<
  Fld("uint64", TUhyper),
  Fld("uint32", TUint),
  Fld("filename3", TString(-1)),
  Fld("nfspath3", TString(-1)),
  Fld("fileid3", TRef("uint64")),
  Fld("cookie3", TRef("uint64")),
  Fld("cookieverf3", TFixed(8)),
  Fld("createverf3", TFixed(8)),
  Fld("writeverf3", TFixed(8)),
  Fld("uid3", TRef("uint32")),
  Fld("gid3", TRef("uint32")),
  Fld("size3", TRef("uint64")),
  Fld("offset3", TRef("uint64")),
  Fld("mode3", TRef("uint32")),
  Fld("count3", TRef("uint32")),
  Fld("nfsstat3", TEnum(<<It("NFS3_OK", U32(0)), It("NFS3ERR_PERM", U32(1)), It("NFS3ERR_NOENT", U32(2)), It("NFS3ERR_IO", U32(5)), It("NFS3ERR_NXIO", U32(6)), It("NFS3ERR_ACCES", U32(13)), It("NFS3ERR_EXIST", U32(17)), It("NFS3ERR_XDEV", U32(18)), It("NFS3ERR_NODEV", U32(19)), It("NFS3ERR_NOTDIR", U32(20)), It("NFS3ERR_ISDIR", U32(21)), It("NFS3ERR_INVAL", U32(22)), It("NFS3ERR_FBIG", U32(27)), It("NFS3ERR_NOSPC", U32(28)), It("NFS3ERR_ROFS", U32(30)), It("NFS3ERR_MLINK", U32(31)), It("NFS3ERR_NAMETOOLONG", U32(63)), It("NFS3ERR_NOTEMPTY", U32(66)), It("NFS3ERR_DQUOT", U32(69)), It("NFS3ERR_STALE", U32(70)), It("NFS3ERR_REMOTE", U32(71)), It("NFS3ERR_BADHANDLE", U32(10001)), It("NFS3ERR_NOT_SYNC", U32(10002)), It("NFS3ERR_BAD_COOKIE", U32(10003)), It("NFS3ERR_NOTSUPP", U32(10004)), It("NFS3ERR_TOOSMALL", U32(10005)), It("NFS3ERR_SERVERFAULT", U32(10006)), It("NFS3ERR_BADTYPE", U32(10007)), It("NFS3ERR_JUKEBOX", U32(10008))>>)),
  Fld("ftype3", TEnum(<<It("NF3REG", U32(1)), It("NF3DIR", U32(2)), It("NF3BLK", U32(3)), It("NF3CHR", U32(4)), It("NF3LNK", U32(5)), It("NF3SOCK", U32(6)), It("NF3FIFO", U32(7))>>)),
  Fld("specdata3", TStruct(<<Fld("specdata1", TRef("uint32")), Fld("specdata2", TRef("uint32"))>>)),
  Fld("nfs_fh3", TStruct(<<Fld("data", TOpaque(64))>>)),
  Fld("nfstime3", TStruct(<<Fld("seconds", TRef("uint32")), Fld("nseconds", TRef("uint32"))>>)),
  Fld("fattr3", TStruct(<<Fld("ftype", TRef("ftype3")), Fld("mode", TRef("mode3")), Fld("nlink", TRef("uint32")), Fld("uid", TRef("uid3")), Fld("gid", TRef("gid3")), Fld("size", TRef("size3")), Fld("used", TRef("size3")), Fld("rdev", TRef("specdata3")), Fld("fsid", TRef("uint64")), Fld("fileid", TRef("fileid3")), Fld("atime", TRef("nfstime3")), Fld("mtime", TRef("nfstime3")), Fld("ctime", TRef("nfstime3"))>>)),
  Fld("post_op_attr", TUnion(Fld("attributes_follow", TBool), <<Arm(<<TRUE>>, "attributes", TRef("fattr3")), Arm(<<FALSE>>, "", TVoid)>>, <<>>)),
  Fld("wcc_attr", TStruct(<<Fld("size", TRef("size3")), Fld("mtime", TRef("nfstime3")), Fld("ctime", TRef("nfstime3"))>>)),
  Fld("pre_op_attr", TUnion(Fld("attributes_follow", TBool), <<Arm(<<TRUE>>, "attributes", TRef("wcc_attr")), Arm(<<FALSE>>, "", TVoid)>>, <<>>)),
  Fld("wcc_data", TStruct(<<Fld("before", TRef("pre_op_attr")), Fld("after", TRef("post_op_attr"))>>)),
  Fld("post_op_fh3", TUnion(Fld("handle_follows", TBool), <<Arm(<<TRUE>>, "handle", TRef("nfs_fh3")), Arm(<<FALSE>>, "", TVoid)>>, <<>>)),
  Fld("time_how", TEnum(<<It("DONT_CHANGE", U32(0)), It("SET_TO_SERVER_TIME", U32(1)), It("SET_TO_CLIENT_TIME", U32(2))>>)),
  Fld("set_mode3", TUnion(Fld("set_it", TBool), <<Arm(<<TRUE>>, "mode", TRef("mode3"))>>, <<Fld("", TVoid)>>)),
  Fld("set_uid3", TUnion(Fld("set_it", TBool), <<Arm(<<TRUE>>, "uid", TRef("uid3"))>>, <<Fld("", TVoid)>>)),
  Fld("set_gid3", TUnion(Fld("set_it", TBool), <<Arm(<<TRUE>>, "gid", TRef("gid3"))>>, <<Fld("", TVoid)>>)),
  Fld("set_size3", TUnion(Fld("set_it", TBool), <<Arm(<<TRUE>>, "size", TRef("size3"))>>, <<Fld("", TVoid)>>)),
  Fld("set_atime", TUnion(Fld("set_it", TRef("time_how")), <<Arm(<<U32(2)>>, "atime", TRef("nfstime3"))>>, <<Fld("", TVoid)>>)),
  Fld("set_mtime", TUnion(Fld("set_it", TRef("time_how")), <<Arm(<<U32(2)>>, "mtime", TRef("nfstime3"))>>, <<Fld("", TVoid)>>)),
  Fld("sattr3", TStruct(<<Fld("mode", TRef("set_mode3")), Fld("uid", TRef("set_uid3")), Fld("gid", TRef("set_gid3")), Fld("size", TRef("set_size3")), Fld("atime", TRef("set_atime")), Fld("mtime", TRef("set_mtime"))>>)),
  Fld("diropargs3", TStruct(<<Fld("dir", TRef("nfs_fh3")), Fld("name", TRef("filename3"))>>)),
  Fld("GETATTR3args", TStruct(<<Fld("object", TRef("nfs_fh3"))>>)),
  Fld("GETATTR3resok", TStruct(<<Fld("obj_attributes", TRef("fattr3"))>>)),
  Fld("GETATTR3res", TUnion(Fld("status", TRef("nfsstat3")), <<Arm(<<U32(0)>>, "resok", TRef("GETATTR3resok"))>>, <<Fld("", TVoid)>>)),
  Fld("sattrguard3", TUnion(Fld("check", TBool), <<Arm(<<TRUE>>, "obj_ctime", TRef("nfstime3")), Arm(<<FALSE>>, "", TVoid)>>, <<>>)),
  Fld("SETATTR3args", TStruct(<<Fld("object", TRef("nfs_fh3")), Fld("new_attributes", TRef("sattr3")), Fld("guard", TRef("sattrguard3"))>>)),
  Fld("SETATTR3resok", TStruct(<<Fld("obj_wcc", TRef("wcc_data"))>>)),
  Fld("SETATTR3resfail", TStruct(<<Fld("obj_wcc", TRef("wcc_data"))>>)),
  Fld("SETATTR3res", TUnion(Fld("status", TRef("nfsstat3")), <<Arm(<<U32(0)>>, "resok", TRef("SETATTR3resok"))>>, <<Fld("resfail", TRef("SETATTR3resfail"))>>)),
  Fld("LOOKUP3args", TStruct(<<Fld("what", TRef("diropargs3"))>>)),
  Fld("LOOKUP3resok", TStruct(<<Fld("object", TRef("nfs_fh3")), Fld("obj_attributes", TRef("post_op_attr")), Fld("dir_attributes", TRef("post_op_attr"))>>)),
  Fld("LOOKUP3resfail", TStruct(<<Fld("dir_attributes", TRef("post_op_attr"))>>)),
  Fld("LOOKUP3res", TUnion(Fld("status", TRef("nfsstat3")), <<Arm(<<U32(0)>>, "resok", TRef("LOOKUP3resok"))>>, <<Fld("resfail", TRef("LOOKUP3resfail"))>>)),
  Fld("ACCESS3args", TStruct(<<Fld("object", TRef("nfs_fh3")), Fld("access", TRef("uint32"))>>)),
  Fld("ACCESS3resok", TStruct(<<Fld("obj_attributes", TRef("post_op_attr")), Fld("access", TRef("uint32"))>>)),
  Fld("ACCESS3resfail", TStruct(<<Fld("obj_attributes", TRef("post_op_attr"))>>)),
  Fld("ACCESS3res", TUnion(Fld("status", TRef("nfsstat3")), <<Arm(<<U32(0)>>, "resok", TRef("ACCESS3resok"))>>, <<Fld("resfail", TRef("ACCESS3resfail"))>>)),
  Fld("READLINK3args", TStruct(<<Fld("symlink", TRef("nfs_fh3"))>>)),
  Fld("READLINK3resok", TStruct(<<Fld("symlink_attributes", TRef("post_op_attr")), Fld("data", TRef("nfspath3"))>>)),
  Fld("READLINK3resfail", TStruct(<<Fld("symlink_attributes", TRef("post_op_attr"))>>)),
  Fld("READLINK3res", TUnion(Fld("status", TRef("nfsstat3")), <<Arm(<<U32(0)>>, "resok", TRef("READLINK3resok"))>>, <<Fld("resfail", TRef("READLINK3resfail"))>>)),
  Fld("READ3args", TStruct(<<Fld("file", TRef("nfs_fh3")), Fld("offset", TRef("offset3")), Fld("count", TRef("count3"))>>)),
  Fld("READ3resok", TStruct(<<Fld("file_attributes", TRef("post_op_attr")), Fld("count", TRef("count3")), Fld("eof", TBool), Fld("data", TOpaque(-1))>>)),
  Fld("READ3resfail", TStruct(<<Fld("file_attributes", TRef("post_op_attr"))>>)),
  Fld("READ3res", TUnion(Fld("status", TRef("nfsstat3")), <<Arm(<<U32(0)>>, "resok", TRef("READ3resok"))>>, <<Fld("resfail", TRef("READ3resfail"))>>)),
  Fld("stable_how", TEnum(<<It("UNSTABLE", U32(0)), It("DATA_SYNC", U32(1)), It("FILE_SYNC", U32(2))>>)),
  Fld("WRITE3args", TStruct(<<Fld("file", TRef("nfs_fh3")), Fld("offset", TRef("offset3")), Fld("count", TRef("count3")), Fld("stable", TRef("stable_how")), Fld("data", TOpaque(-1))>>)),
  Fld("WRITE3resok", TStruct(<<Fld("file_wcc", TRef("wcc_data")), Fld("count", TRef("count3")), Fld("committed", TRef("stable_how")), Fld("verf", TRef("writeverf3"))>>)),
  Fld("WRITE3resfail", TStruct(<<Fld("file_wcc", TRef("wcc_data"))>>)),
  Fld("WRITE3res", TUnion(Fld("status", TRef("nfsstat3")), <<Arm(<<U32(0)>>, "resok", TRef("WRITE3resok"))>>, <<Fld("resfail", TRef("WRITE3resfail"))>>)),
  Fld("createmode3", TEnum(<<It("UNCHECKED", U32(0)), It("GUARDED", U32(1)), It("EXCLUSIVE", U32(2))>>)),
  Fld("createhow3", TUnion(Fld("mode", TRef("createmode3")), <<Arm(<<U32(0), U32(1)>>, "obj_attributes", TRef("sattr3")), Arm(<<U32(2)>>, "verf", TRef("createverf3"))>>, <<>>)),
  Fld("CREATE3args", TStruct(<<Fld("where", TRef("diropargs3")), Fld("how", TRef("createhow3"))>>)),
  Fld("CREATE3resok", TStruct(<<Fld("obj", TRef("post_op_fh3")), Fld("obj_attributes", TRef("post_op_attr")), Fld("dir_wcc", TRef("wcc_data"))>>)),
  Fld("CREATE3resfail", TStruct(<<Fld("dir_wcc", TRef("wcc_data"))>>)),
  Fld("CREATE3res", TUnion(Fld("status", TRef("nfsstat3")), <<Arm(<<U32(0)>>, "resok", TRef("CREATE3resok"))>>, <<Fld("resfail", TRef("CREATE3resfail"))>>)),
  Fld("MKDIR3args", TStruct(<<Fld("where", TRef("diropargs3")), Fld("attributes", TRef("sattr3"))>>)),
  Fld("MKDIR3resok", TStruct(<<Fld("obj", TRef("post_op_fh3")), Fld("obj_attributes", TRef("post_op_attr")), Fld("dir_wcc", TRef("wcc_data"))>>)),
  Fld("MKDIR3resfail", TStruct(<<Fld("dir_wcc", TRef("wcc_data"))>>)),
  Fld("MKDIR3res", TUnion(Fld("status", TRef("nfsstat3")), <<Arm(<<U32(0)>>, "resok", TRef("MKDIR3resok"))>>, <<Fld("resfail", TRef("MKDIR3resfail"))>>)),
  Fld("symlinkdata3", TStruct(<<Fld("symlink_attributes", TRef("sattr3")), Fld("symlink_data", TRef("nfspath3"))>>)),
  Fld("SYMLINK3args", TStruct(<<Fld("where", TRef("diropargs3")), Fld("symlink", TRef("symlinkdata3"))>>)),
  Fld("SYMLINK3resok", TStruct(<<Fld("obj", TRef("post_op_fh3")), Fld("obj_attributes", TRef("post_op_attr")), Fld("dir_wcc", TRef("wcc_data"))>>)),
  Fld("SYMLINK3resfail", TStruct(<<Fld("dir_wcc", TRef("wcc_data"))>>)),
  Fld("SYMLINK3res", TUnion(Fld("status", TRef("nfsstat3")), <<Arm(<<U32(0)>>, "resok", TRef("SYMLINK3resok"))>>, <<Fld("resfail", TRef("SYMLINK3resfail"))>>)),
  Fld("devicedata3", TStruct(<<Fld("dev_attributes", TRef("sattr3")), Fld("spec", TRef("specdata3"))>>)),
  Fld("mknoddata3", TUnion(Fld("ftype", TRef("ftype3")), <<Arm(<<U32(4), U32(3)>>, "device", TRef("devicedata3")), Arm(<<U32(6), U32(7)>>, "pipe_attributes", TRef("sattr3"))>>, <<Fld("", TVoid)>>)),
  Fld("MKNOD3args", TStruct(<<Fld("where", TRef("diropargs3")), Fld("what", TRef("mknoddata3"))>>)),
  Fld("MKNOD3resok", TStruct(<<Fld("obj", TRef("post_op_fh3")), Fld("obj_attributes", TRef("post_op_attr")), Fld("dir_wcc", TRef("wcc_data"))>>)),
  Fld("MKNOD3resfail", TStruct(<<Fld("dir_wcc", TRef("wcc_data"))>>)),
  Fld("MKNOD3res", TUnion(Fld("status", TRef("nfsstat3")), <<Arm(<<U32(0)>>, "resok", TRef("MKNOD3resok"))>>, <<Fld("resfail", TRef("MKNOD3resfail"))>>)),
  Fld("REMOVE3args", TStruct(<<Fld("object", TRef("diropargs3"))>>)),
  Fld("REMOVE3resok", TStruct(<<Fld("dir_wcc", TRef("wcc_data"))>>)),
  Fld("REMOVE3resfail", TStruct(<<Fld("dir_wcc", TRef("wcc_data"))>>)),
  Fld("REMOVE3res", TUnion(Fld("status", TRef("nfsstat3")), <<Arm(<<U32(0)>>, "resok", TRef("REMOVE3resok"))>>, <<Fld("resfail", TRef("REMOVE3resfail"))>>)),
  Fld("RMDIR3args", TStruct(<<Fld("object", TRef("diropargs3"))>>)),
  Fld("RMDIR3resok", TStruct(<<Fld("dir_wcc", TRef("wcc_data"))>>)),
  Fld("RMDIR3resfail", TStruct(<<Fld("dir_wcc", TRef("wcc_data"))>>)),
  Fld("RMDIR3res", TUnion(Fld("status", TRef("nfsstat3")), <<Arm(<<U32(0)>>, "resok", TRef("RMDIR3resok"))>>, <<Fld("resfail", TRef("RMDIR3resfail"))>>)),
  Fld("RENAME3args", TStruct(<<Fld("from", TRef("diropargs3")), Fld("to", TRef("diropargs3"))>>)),
  Fld("RENAME3resok", TStruct(<<Fld("fromdir_wcc", TRef("wcc_data")), Fld("todir_wcc", TRef("wcc_data"))>>)),
  Fld("RENAME3resfail", TStruct(<<Fld("fromdir_wcc", TRef("wcc_data")), Fld("todir_wcc", TRef("wcc_data"))>>)),
  Fld("RENAME3res", TUnion(Fld("status", TRef("nfsstat3")), <<Arm(<<U32(0)>>, "resok", TRef("RENAME3resok"))>>, <<Fld("resfail", TRef("RENAME3resfail"))>>)),
  Fld("LINK3args", TStruct(<<Fld("file", TRef("nfs_fh3")), Fld("link", TRef("diropargs3"))>>)),
  Fld("LINK3resok", TStruct(<<Fld("file_attributes", TRef("post_op_attr")), Fld("linkdir_wcc", TRef("wcc_data"))>>)),
  Fld("LINK3resfail", TStruct(<<Fld("file_attributes", TRef("post_op_attr")), Fld("linkdir_wcc", TRef("wcc_data"))>>)),
  Fld("LINK3res", TUnion(Fld("status", TRef("nfsstat3")), <<Arm(<<U32(0)>>, "resok", TRef("LINK3resok"))>>, <<Fld("resfail", TRef("LINK3resfail"))>>)),
  Fld("READDIR3args", TStruct(<<Fld("dir", TRef("nfs_fh3")), Fld("cookie", TRef("cookie3")), Fld("cookieverf", TRef("cookieverf3")), Fld("count", TRef("count3"))>>)),
  Fld("entry3", TStruct(<<Fld("fileid", TRef("fileid3")), Fld("name", TRef("filename3")), Fld("cookie", TRef("cookie3")), Fld("nextentry", TOpt(TRef("entry3")))>>)),
  Fld("dirlist3", TStruct(<<Fld("entries", TOpt(TRef("entry3"))), Fld("eof", TBool)>>)),
  Fld("READDIR3resok", TStruct(<<Fld("dir_attributes", TRef("post_op_attr")), Fld("cookieverf", TRef("cookieverf3")), Fld("reply", TRef("dirlist3"))>>)),
  Fld("READDIR3resfail", TStruct(<<Fld("dir_attributes", TRef("post_op_attr"))>>)),
  Fld("READDIR3res", TUnion(Fld("status", TRef("nfsstat3")), <<Arm(<<U32(0)>>, "resok", TRef("READDIR3resok"))>>, <<Fld("resfail", TRef("READDIR3resfail"))>>)),
  Fld("READDIRPLUS3args", TStruct(<<Fld("dir", TRef("nfs_fh3")), Fld("cookie", TRef("cookie3")), Fld("cookieverf", TRef("cookieverf3")), Fld("dircount", TRef("count3")), Fld("maxcount", TRef("count3"))>>)),
  Fld("entryplus3", TStruct(<<Fld("fileid", TRef("fileid3")), Fld("name", TRef("filename3")), Fld("cookie", TRef("cookie3")), Fld("name_attributes", TRef("post_op_attr")), Fld("name_handle", TRef("post_op_fh3")), Fld("nextentry", TOpt(TRef("entryplus3")))>>)),
  Fld("dirlistplus3", TStruct(<<Fld("entries", TOpt(TRef("entryplus3"))), Fld("eof", TBool)>>)),
  Fld("READDIRPLUS3resok", TStruct(<<Fld("dir_attributes", TRef("post_op_attr")), Fld("cookieverf", TRef("cookieverf3")), Fld("reply", TRef("dirlistplus3"))>>)),
  Fld("READDIRPLUS3resfail", TStruct(<<Fld("dir_attributes", TRef("post_op_attr"))>>)),
  Fld("READDIRPLUS3res", TUnion(Fld("status", TRef("nfsstat3")), <<Arm(<<U32(0)>>, "resok", TRef("READDIRPLUS3resok"))>>, <<Fld("resfail", TRef("READDIRPLUS3resfail"))>>)),
  Fld("FSSTAT3args", TStruct(<<Fld("fsroot", TRef("nfs_fh3"))>>)),
  Fld("FSSTAT3resok", TStruct(<<Fld("obj_attributes", TRef("post_op_attr")), Fld("tbytes", TRef("size3")), Fld("fbytes", TRef("size3")), Fld("abytes", TRef("size3")), Fld("tfiles", TRef("size3")), Fld("ffiles", TRef("size3")), Fld("afiles", TRef("size3")), Fld("invarsec", TRef("uint32"))>>)),
  Fld("FSSTAT3resfail", TStruct(<<Fld("obj_attributes", TRef("post_op_attr"))>>)),
  Fld("FSSTAT3res", TUnion(Fld("status", TRef("nfsstat3")), <<Arm(<<U32(0)>>, "resok", TRef("FSSTAT3resok"))>>, <<Fld("resfail", TRef("FSSTAT3resfail"))>>)),
  Fld("FSINFO3args", TStruct(<<Fld("fsroot", TRef("nfs_fh3"))>>)),
  Fld("FSINFO3resok", TStruct(<<Fld("obj_attributes", TRef("post_op_attr")), Fld("rtmax", TRef("uint32")), Fld("rtpref", TRef("uint32")), Fld("rtmult", TRef("uint32")), Fld("wtmax", TRef("uint32")), Fld("wtpref", TRef("uint32")), Fld("wtmult", TRef("uint32")), Fld("dtpref", TRef("uint32")), Fld("maxfilesize", TRef("size3")), Fld("time_delta", TRef("nfstime3")), Fld("properties", TRef("uint32"))>>)),
  Fld("FSINFO3resfail", TStruct(<<Fld("obj_attributes", TRef("post_op_attr"))>>)),
  Fld("FSINFO3res", TUnion(Fld("status", TRef("nfsstat3")), <<Arm(<<U32(0)>>, "resok", TRef("FSINFO3resok"))>>, <<Fld("resfail", TRef("FSINFO3resfail"))>>)),
  Fld("PATHCONF3args", TStruct(<<Fld("object", TRef("nfs_fh3"))>>)),
  Fld("PATHCONF3resok", TStruct(<<Fld("obj_attributes", TRef("post_op_attr")), Fld("linkmax", TRef("uint32")), Fld("name_max", TRef("uint32")), Fld("no_trunc", TBool), Fld("chown_restricted", TBool), Fld("case_insensitive", TBool), Fld("case_preserving", TBool)>>)),
  Fld("PATHCONF3resfail", TStruct(<<Fld("obj_attributes", TRef("post_op_attr"))>>)),
  Fld("PATHCONF3res", TUnion(Fld("status", TRef("nfsstat3")), <<Arm(<<U32(0)>>, "resok", TRef("PATHCONF3resok"))>>, <<Fld("resfail", TRef("PATHCONF3resfail"))>>)),
  Fld("COMMIT3args", TStruct(<<Fld("file", TRef("nfs_fh3")), Fld("offset", TRef("offset3")), Fld("count", TRef("count3"))>>)),
  Fld("COMMIT3resok", TStruct(<<Fld("file_wcc", TRef("wcc_data")), Fld("verf", TRef("writeverf3"))>>)),
  Fld("COMMIT3resfail", TStruct(<<Fld("file_wcc", TRef("wcc_data"))>>)),
  Fld("COMMIT3res", TUnion(Fld("status", TRef("nfsstat3")), <<Arm(<<U32(0)>>, "resok", TRef("COMMIT3resok"))>>, <<Fld("resfail", TRef("COMMIT3resfail"))>>)),
  Fld("fhandle3", TOpaque(64)),
  Fld("dirpath3", TString(1024)),
  Fld("name3", TString(255)),
  Fld("mountstat3", TEnum(<<It("MNT3_OK", U32(0)), It("MNT3ERR_PERM", U32(1)), It("MNT3ERR_NOENT", U32(2)), It("MNT3ERR_IO", U32(5)), It("MNT3ERR_ACCES", U32(13)), It("MNT3ERR_NOTDIR", U32(20)), It("MNT3ERR_INVAL", U32(22)), It("MNT3ERR_NAMETOOLONG", U32(63)), It("MNT3ERR_NOTSUPP", U32(10004)), It("MNT3ERR_SERVERFAULT", U32(10006))>>)),
  Fld("mountres3_ok", TStruct(<<Fld("fhandle", TRef("fhandle3")), Fld("auth_flavors", TVarray(-1, TUint))>>)),
  Fld("mountres3", TUnion(Fld("fhs_status", TRef("mountstat3")), <<Arm(<<U32(0)>>, "mountinfo", TRef("mountres3_ok"))>>, <<Fld("", TVoid)>>)),
  Fld("mount3", TStruct(<<Fld("ml_hostname", TRef("name3")), Fld("ml_directory", TRef("dirpath3")), Fld("ml_next", TOpt(TRef("mount3")))>>)),
  Fld("mountopt3", TOpt(TRef("mount3"))),
  Fld("groups3", TStruct(<<Fld("gr_name", TRef("name3")), Fld("gr_next", TOpt(TRef("groups3")))>>)),
  Fld("exports3", TStruct(<<Fld("ex_dir", TRef("dirpath3")), Fld("ex_groups", TOpt(TRef("groups3"))), Fld("ex_next", TOpt(TRef("exports3")))>>)),
  Fld("exportsopt3", TOpt(TRef("exports3")))>>

Nfs3Progs == <<
  [n |-> "NFS_PROGRAM", v |-> 100003, vers |-> <<
     [n |-> "NFS_V3", v |-> 3, procs |-> <<
       Proc("NFSPROC3_NULL", 0, TVoid, TVoid),
       Proc("NFSPROC3_GETATTR", 1, TRef("GETATTR3args"), TRef("GETATTR3res")),
       Proc("NFSPROC3_SETATTR", 2, TRef("SETATTR3args"), TRef("SETATTR3res")),
       Proc("NFSPROC3_LOOKUP", 3, TRef("LOOKUP3args"), TRef("LOOKUP3res")),
       Proc("NFSPROC3_ACCESS", 4, TRef("ACCESS3args"), TRef("ACCESS3res")),
       Proc("NFSPROC3_READLINK", 5, TRef("READLINK3args"), TRef("READLINK3res")),
       Proc("NFSPROC3_READ", 6, TRef("READ3args"), TRef("READ3res")),
       Proc("NFSPROC3_WRITE", 7, TRef("WRITE3args"), TRef("WRITE3res")),
       Proc("NFSPROC3_CREATE", 8, TRef("CREATE3args"), TRef("CREATE3res")),
       Proc("NFSPROC3_MKDIR", 9, TRef("MKDIR3args"), TRef("MKDIR3res")),
       Proc("NFSPROC3_SYMLINK", 10, TRef("SYMLINK3args"), TRef("SYMLINK3res")),
       Proc("NFSPROC3_MKNOD", 11, TRef("MKNOD3args"), TRef("MKNOD3res")),
       Proc("NFSPROC3_REMOVE", 12, TRef("REMOVE3args"), TRef("REMOVE3res")),
       Proc("NFSPROC3_RMDIR", 13, TRef("RMDIR3args"), TRef("RMDIR3res")),
       Proc("NFSPROC3_RENAME", 14, TRef("RENAME3args"), TRef("RENAME3res")),
       Proc("NFSPROC3_LINK", 15, TRef("LINK3args"), TRef("LINK3res")),
       Proc("NFSPROC3_READDIR", 16, TRef("READDIR3args"), TRef("READDIR3res")),
       Proc("NFSPROC3_READDIRPLUS", 17, TRef("READDIRPLUS3args"), TRef("READDIRPLUS3res")),
       Proc("NFSPROC3_FSSTAT", 18, TRef("FSSTAT3args"), TRef("FSSTAT3res")),
       Proc("NFSPROC3_FSINFO", 19, TRef("FSINFO3args"), TRef("FSINFO3res")),
       Proc("NFSPROC3_PATHCONF", 20, TRef("PATHCONF3args"), TRef("PATHCONF3res")),
       Proc("NFSPROC3_COMMIT", 21, TRef("COMMIT3args"), TRef("COMMIT3res"))>>]>>],
  [n |-> "MOUNT_PROGRAM", v |-> 100005, vers |-> <<
     [n |-> "MOUNT_V3", v |-> 3, procs |-> <<
       Proc("MOUNTPROC3_NULL", 0, TVoid, TVoid),
       Proc("MOUNTPROC3_MNT", 1, TRef("dirpath3"), TRef("mountres3")),
       Proc("MOUNTPROC3_DUMP", 2, TVoid, TRef("mountopt3")),
       Proc("MOUNTPROC3_UMNT", 3, TRef("dirpath3"), TVoid),
       Proc("MOUNTPROC3_UMNTALL", 4, TVoid, TVoid),
       Proc("MOUNTPROC3_EXPORT", 5, TVoid, TRef("exportsopt3"))>>]>>]>>
=============================================================================
