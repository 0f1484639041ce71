From 9d9682a99693174ef58a00d25c30352470895f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:42 +0000
Subject: [PATCH 01/18] fix: do not treat the end of a line as a semicolon in
 .x files

The Go scanner inserts a semicolon after a line ending in an identifier,
literal or closing bracket, so an enum whose last item is followed by a
newline, or a brace on a line of its own, was a syntax error, and a
missing semicolon was accepted.
---
 scan.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scan.go b/scan.go
index 23ab8ca..ca7e6b0 100644
--- a/scan.go
+++ b/scan.go
@@ -16,6 +16,11 @@ const eof = 0
 
 func (l *lexer) Lex(lval *xdrSymType) int {
 	pos, tok, lit := l.s.Scan()
+	for tok == token.SEMICOLON && lit == "\n" {
+		// Inserted by the Go scanner at the end of a line; XDR has no such rule.
+		pos, tok, lit = l.s.Scan()
+	}
+
 	if tok == token.EOF {
 		return eof
 	}
-- 
2.43.0


From b3bef5cad1ddf206aeb5b9d609068c75d7efdcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:43 +0000
Subject: [PATCH 02/18] fix: accept every Go keyword that is a plain identifier
 in XDR

Only type and map were accepted; a field called range, for example, made
the generator panic, although the generated name is capitalised.
---
 scan.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/scan.go b/scan.go
index ca7e6b0..e45849f 100644
--- a/scan.go
+++ b/scan.go
@@ -36,10 +36,6 @@ func (l *lexer) Lex(lval *xdrSymType) int {
 	case token.STRUCT:
 		return KWSTRUCT
 
-	case token.TYPE:
-		lval.str = "type"
-		return IDENT
-
 	case token.SWITCH:
 		return KWSWITCH
 
@@ -49,10 +45,6 @@ func (l *lexer) Lex(lval *xdrSymType) int {
 	case token.DEFAULT:
 		return KWDEFAULT
 
-	case token.MAP:
-		lval.str = "map"
-		return IDENT
-
 	case token.IDENT:
 		switch lit {
 		case "typedef":
@@ -149,6 +141,12 @@ func (l *lexer) Lex(lval *xdrSymType) int {
 		return CONST
 
 	default:
+		if tok.IsKeyword() {
+			// A Go keyword that means nothing in XDR.
+			lval.str = tok.String()
+			return IDENT
+		}
+
 		fmt.Printf("NOT HANDLED: pos=%v, tok=%v, lit=%v\n", pos, tok, lit)
 		panic("token not handled")
 	}
-- 
2.43.0


From 276f630f108aa84db734e7b5cf5ad80895aa83b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:45 +0000
Subject: [PATCH 03/18] fix: reject .x files with scanner errors

Scanner errors were ignored: an unterminated comment silently dropped the
rest of the specification, and a malformed number was noticed only when
formatting the types file, after the codec file had been overwritten.
---
 main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 8ad23cf..648d145 100644
--- a/main.go
+++ b/main.go
@@ -43,7 +43,9 @@ func main() {
 	f := fset.AddFile(*inputFile, -1, len(src))
 
 	var l lexer
-	l.s.Init(f, src, nil, 0)
+	l.s.Init(f, src, func(pos token.Position, msg string) {
+		panic(fmt.Sprintf("%v: %s", pos, msg))
+	}, 0)
 
 	outTmp := *outputFile + ".tmp"
 	outf, err := os.OpenFile(outTmp, os.O_WRONLY|os.O_EXCL|os.O_CREATE|os.O_TRUNC, 0666)
-- 
2.43.0


From a51aa04a13367656a0aeb7c8b152e8b8624d0368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:07 +0000
Subject: [PATCH 04/18] fix: generate compilable code for fixed-size arrays

The element expression dereferenced the element instead of the array, and
the index was compared with the size as an int, which fails when the size
is a typed constant.
---
 out.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/out.go b/out.go
index 5931268..b4e566b 100644
--- a/out.go
+++ b/out.go
@@ -54,8 +54,8 @@ func (t declTypeArray) goType() string {
 
 func (t declTypeArray) goXdr(valPtr string) string {
 	var res string
-	res += fmt.Sprintf("for i := 0; i < %s; i++ {\n", t.sz)
-	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&(*(%s)[i])", valPtr)))
+	res += fmt.Sprintf("for i := range *(%s) {\n", valPtr)
+	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[i])", valPtr)))
 	res += fmt.Sprintf("}\n")
 	return res
 }
-- 
2.43.0


From 535617b49147b1a9f127b525710a319e88037462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:08 +0000
Subject: [PATCH 05/18] fix: use distinct loop variables for nested arrays

An array inside an inline struct that is itself an array element reused
the outer loop's variable, so it coded the wrong elements or panicked.
---
 out.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/out.go b/out.go
index b4e566b..3543759 100644
--- a/out.go
+++ b/out.go
@@ -52,10 +52,21 @@ func (t declTypeArray) goType() string {
 	return fmt.Sprintf("[%s]%s", t.sz, t.t.goType())
 }
 
+// loopVar returns a loop variable that valPtr does not index with, so that
+// the loops of nested arrays use different variables.
+func loopVar(valPtr string) string {
+	v := "i"
+	for n := 1; strings.Contains(valPtr, "["+v+"]"); n++ {
+		v = fmt.Sprintf("i%d", n)
+	}
+	return v
+}
+
 func (t declTypeArray) goXdr(valPtr string) string {
 	var res string
-	res += fmt.Sprintf("for i := range *(%s) {\n", valPtr)
-	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[i])", valPtr)))
+	lv := loopVar(valPtr)
+	res += fmt.Sprintf("for %s := range *(%s) {\n", lv, valPtr)
+	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, lv)))
 	res += fmt.Sprintf("}\n")
 	return res
 }
@@ -79,8 +90,9 @@ func (t declTypeVarArray) goXdr(valPtr string) string {
 		res += fmt.Sprintf("if __arraysz > %s { xs.SetError(\"array too large\") } else {\n", t.sz)
 	}
 	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, __arraysz); }\n", valPtr, t.t.goType())
-	res += fmt.Sprintf("for i := uint64(0); i < uint64(__arraysz); i++ {\n")
-	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[i])", valPtr)))
+	lv := loopVar(valPtr)
+	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(__arraysz); %s++ {\n", lv, lv, lv)
+	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, lv)))
 	res += fmt.Sprintf("}\n")
 	if t.sz != "" {
 		res += fmt.Sprintf("}\n")
-- 
2.43.0


From 082747562b4582b4c5488e5695fb1c52029e3dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:10 +0000
Subject: [PATCH 06/18] fix: allow an enum value as the bound of a
 variable-length array

The generated comparison mixed uint32 with the enum's type and did not
compile.
---
 out.go         | 2 +-
 rfc1057/xdr.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/out.go b/out.go
index 3543759..f598f85 100644
--- a/out.go
+++ b/out.go
@@ -87,7 +87,7 @@ func (t declTypeVarArray) goXdr(valPtr string) string {
 	res += fmt.Sprintf("xs.EncodingSetSize(&__arraysz, len(*%s));\n", valPtr)
 	res += fmt.Sprintf("%s\n", typeInt{true}.goXdr("&__arraysz"))
 	if t.sz != "" {
-		res += fmt.Sprintf("if __arraysz > %s { xs.SetError(\"array too large\") } else {\n", t.sz)
+		res += fmt.Sprintf("if __arraysz > uint32(%s) { xs.SetError(\"array too large\") } else {\n", t.sz)
 	}
 	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, __arraysz); }\n", valPtr, t.t.goType())
 	lv := loopVar(valPtr)
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index 3ed725a..34c7fc1 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -83,7 +83,7 @@ func (v *Auth_unix) Xdr(xs *xdr.XdrState) {
 		xs.EncodingSetSize(&__arraysz, len(*&((v).Gids)))
 		xdr.XdrU32(xs, (*uint32)(&__arraysz))
 
-		if __arraysz > 16 {
+		if __arraysz > uint32(16) {
 			xs.SetError("array too large")
 		} else {
 			if xs.Decoding() {
-- 
2.43.0


From ae7ef908e184770952f96fdb477f7b4e6d1fc9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:10 +0000
Subject: [PATCH 07/18] fix: capitalise constant names where they are declared
 and used

Enum values and union cases were capitalised but constants, bounds and
enum values referring to other names were not, so specifications with
lower-case constant names generated code with undefined identifiers.
---
 out.go | 4 ++--
 xdr.y  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/out.go b/out.go
index f598f85..46ab7c7 100644
--- a/out.go
+++ b/out.go
@@ -325,7 +325,7 @@ func (t typeUnion) goXdr(valPtr string) string {
 	res += fmt.Sprintf("switch %s {\n", switchName)
 	for _, c := range t.cases.cases {
 		for idx, cval := range c.cases {
-			res += fmt.Sprintf("case %s:\n", i(cval))
+			res += fmt.Sprintf("case %s:\n", cval)
 			if idx != len(c.cases)-1 {
 				res += "fallthrough\n"
 			}
@@ -454,7 +454,7 @@ func emitProg(d progDef) {
 }
 
 func emitConst(ident string, val string) {
-	fmt.Fprintf(tout, "const %s %s = %s\n", ident, *constTypeFlag, val)
+	fmt.Fprintf(tout, "const %s %s = %s\n", i(ident), *constTypeFlag, val)
 }
 
 func emitTypedef(val decl) {
diff --git a/xdr.y b/xdr.y
index 3afbbbf..860b250 100644
--- a/xdr.y
+++ b/xdr.y
@@ -105,7 +105,7 @@ varlen: '<' '>'
 val: CONST
   { $$ = $1 }
 | IDENT
-  { $$ = $1 }
+  { $$ = i($1) }
 
 typespec: maybeunsig KWINT
   { $$ = typeInt{$1} }
-- 
2.43.0


From 94d7dfd3e6e63723011484ba9e11d6f08d686437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 08/18] fix: clear optional data that is absent when decoding

Decoding an absent optional into a variable that held a value, for
instance a result variable reused for a second call, left the old value
in place.
---
 out.go         |  2 ++
 rfc1057/xdr.go |  2 ++
 rfc1813/xdr.go | 20 ++++++++++++++++++++
 3 files changed, 24 insertions(+)

diff --git a/out.go b/out.go
index 46ab7c7..77689c1 100644
--- a/out.go
+++ b/out.go
@@ -169,6 +169,8 @@ func (t declTypePtr) goXdr(valPtr string) string {
 	res += fmt.Sprintf("if opted {\n")
 	res += fmt.Sprintf("*(%s) = new(%s)\n", valPtr, t.t.goType())
 	res += t.t.goXdr(fmt.Sprintf("*(%s)", valPtr))
+	res += fmt.Sprintf("} else {\n")
+	res += fmt.Sprintf("*(%s) = nil\n", valPtr)
 	res += fmt.Sprintf("}\n")
 	res += fmt.Sprintf("}\n")
 	return res
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index 34c7fc1..a124a00 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -116,6 +116,8 @@ func (v *Pmaplist) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&v.P) = new(Pmaplistelem)
 			(*Pmaplistelem)(*(&v.P)).Xdr(xs)
+		} else {
+			*(&v.P) = nil
 		}
 	}
 }
diff --git a/rfc1813/xdr.go b/rfc1813/xdr.go
index 9e7a294..24f00ca 100644
--- a/rfc1813/xdr.go
+++ b/rfc1813/xdr.go
@@ -950,6 +950,8 @@ func (v *Entry3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Nextentry)) = new(Entry3)
 			(*Entry3)(*(&((v).Nextentry))).Xdr(xs)
+		} else {
+			*(&((v).Nextentry)) = nil
 		}
 	}
 }
@@ -967,6 +969,8 @@ func (v *Dirlist3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Entries)) = new(Entry3)
 			(*Entry3)(*(&((v).Entries))).Xdr(xs)
+		} else {
+			*(&((v).Entries)) = nil
 		}
 	}
 	xdr.XdrBool(xs, (*bool)(&((v).Eof)))
@@ -1014,6 +1018,8 @@ func (v *Entryplus3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Nextentry)) = new(Entryplus3)
 			(*Entryplus3)(*(&((v).Nextentry))).Xdr(xs)
+		} else {
+			*(&((v).Nextentry)) = nil
 		}
 	}
 }
@@ -1031,6 +1037,8 @@ func (v *Dirlistplus3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Entries)) = new(Entryplus3)
 			(*Entryplus3)(*(&((v).Entries))).Xdr(xs)
+		} else {
+			*(&((v).Entries)) = nil
 		}
 	}
 	xdr.XdrBool(xs, (*bool)(&((v).Eof)))
@@ -1298,6 +1306,8 @@ func (v *Mount3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Ml_next)) = new(Mount3)
 			(*Mount3)(*(&((v).Ml_next))).Xdr(xs)
+		} else {
+			*(&((v).Ml_next)) = nil
 		}
 	}
 }
@@ -1315,6 +1325,8 @@ func (v *Mountopt3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&v.P) = new(Mount3)
 			(*Mount3)(*(&v.P)).Xdr(xs)
+		} else {
+			*(&v.P) = nil
 		}
 	}
 }
@@ -1333,6 +1345,8 @@ func (v *Groups3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Gr_next)) = new(Groups3)
 			(*Groups3)(*(&((v).Gr_next))).Xdr(xs)
+		} else {
+			*(&((v).Gr_next)) = nil
 		}
 	}
 }
@@ -1351,6 +1365,8 @@ func (v *Exports3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Ex_groups)) = new(Groups3)
 			(*Groups3)(*(&((v).Ex_groups))).Xdr(xs)
+		} else {
+			*(&((v).Ex_groups)) = nil
 		}
 	}
 	if xs.Encoding() {
@@ -1366,6 +1382,8 @@ func (v *Exports3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Ex_next)) = new(Exports3)
 			(*Exports3)(*(&((v).Ex_next))).Xdr(xs)
+		} else {
+			*(&((v).Ex_next)) = nil
 		}
 	}
 }
@@ -1383,6 +1401,8 @@ func (v *Exportsopt3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&v.P) = new(Exports3)
 			(*Exports3)(*(&v.P)).Xdr(xs)
+		} else {
+			*(&v.P) = nil
 		}
 	}
 }
-- 
2.43.0


From 84c569eec4f094e3835803f80696d4f5c7268afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:06 +0000
Subject: [PATCH 09/18] fix: do not allocate a decoded array from its claimed
 length

An 8-byte message could make a decoder of an unbounded array allocate
16 GiB and spin for billions of iterations after running out of input.
---
 out.go         | 6 ++++--
 rfc1057/xdr.go | 7 +++++--
 rfc1813/xdr.go | 7 +++++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/out.go b/out.go
index 77689c1..1ad1250 100644
--- a/out.go
+++ b/out.go
@@ -89,9 +89,11 @@ func (t declTypeVarArray) goXdr(valPtr string) string {
 	if t.sz != "" {
 		res += fmt.Sprintf("if __arraysz > uint32(%s) { xs.SetError(\"array too large\") } else {\n", t.sz)
 	}
-	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, __arraysz); }\n", valPtr, t.t.goType())
+	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, 0); }\n", valPtr, t.t.goType())
 	lv := loopVar(valPtr)
-	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(__arraysz); %s++ {\n", lv, lv, lv)
+	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(__arraysz) && xs.Error() == nil; %s++ {\n", lv, lv, lv)
+	// Grow as elements arrive, since the size being decoded is not to be trusted.
+	res += fmt.Sprintf("if xs.Decoding() { *%s = append(*%s, *new(%s)); }\n", valPtr, valPtr, t.t.goType())
 	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, lv)))
 	res += fmt.Sprintf("}\n")
 	if t.sz != "" {
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index a124a00..db3b03c 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -87,9 +87,12 @@ func (v *Auth_unix) Xdr(xs *xdr.XdrState) {
 			xs.SetError("array too large")
 		} else {
 			if xs.Decoding() {
-				*&((v).Gids) = make([]uint32, __arraysz)
+				*&((v).Gids) = make([]uint32, 0)
 			}
-			for i := uint64(0); i < uint64(__arraysz); i++ {
+			for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {
+				if xs.Decoding() {
+					*&((v).Gids) = append(*&((v).Gids), *new(uint32))
+				}
 				xdr.XdrU32(xs, (*uint32)(&((*(&((v).Gids)))[i])))
 
 			}
diff --git a/rfc1813/xdr.go b/rfc1813/xdr.go
index 24f00ca..4c9ef86 100644
--- a/rfc1813/xdr.go
+++ b/rfc1813/xdr.go
@@ -1274,9 +1274,12 @@ func (v *Mountres3_ok) Xdr(xs *xdr.XdrState) {
 		xdr.XdrU32(xs, (*uint32)(&__arraysz))
 
 		if xs.Decoding() {
-			*&((v).Auth_flavors) = make([]uint32, __arraysz)
+			*&((v).Auth_flavors) = make([]uint32, 0)
 		}
-		for i := uint64(0); i < uint64(__arraysz); i++ {
+		for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {
+			if xs.Decoding() {
+				*&((v).Auth_flavors) = append(*&((v).Auth_flavors), *new(uint32))
+			}
 			xdr.XdrU32(xs, (*uint32)(&((*(&((v).Auth_flavors)))[i])))
 
 		}
-- 
2.43.0


From 50a335136e41beb89af2d938d9e356e20a92f831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:27 +0000
Subject: [PATCH 10/18] fix: support built-in types as procedure arguments and
 results

The generated wrappers called an Xdr method on int32, uint32 and so on,
which have none. Inline struct, union and enum types, for which no named
Go type exists, are now rejected instead of generating such code.
---
 out.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/out.go b/out.go
index 1ad1250..163eed0 100644
--- a/out.go
+++ b/out.go
@@ -188,12 +188,30 @@ type typespecOpt struct {
 	t      typespec
 }
 
-func (t typespecOpt) maybeGoType() string {
-	if t.isVoid {
-		return ""
+// maybeXdrType returns the Go type whose Xdr method codes t, which differs from
+// its Go type for the types that are built into XDR.
+func (t typespecOpt) maybeXdrType() string {
+	switch v := t.t.(type) {
+	case typeInt:
+		if v.unsig {
+			return "xdr.Uint32"
+		}
+		return "xdr.Int32"
+	case typeHyper:
+		if v.unsig {
+			return "xdr.Uint64"
+		}
+		return "xdr.Int64"
+	case typeBool:
+		return "xdr.Bool"
+	case typeIdent:
+		return v.goType()
 	}
 
-	return t.t.goType()
+	if !t.isVoid {
+		panic("procedure argument or result needs a named type")
+	}
+	return ""
 }
 
 type typeInt struct {
@@ -404,7 +422,7 @@ func emitProg(d progDef) {
 
 		fmt.Fprintf(out, "type %s_%s_handler interface {\n", i(d.name), i(v.name))
 		for _, c := range v.calls {
-			fmt.Fprintf(out, "%s(%s) %s\n", i(c.name), c.arg.maybeGoType(), c.res.maybeGoType())
+			fmt.Fprintf(out, "%s(%s) %s\n", i(c.name), c.arg.maybeXdrType(), c.res.maybeXdrType())
 		}
 		fmt.Fprintf(out, "}\n")
 
@@ -416,14 +434,14 @@ func emitProg(d progDef) {
 			fmt.Fprintf(out, "func (w *%s_%s_handler_wrapper) %s(args *xdr.XdrState) (res xdr.Xdrable, err error) {\n",
 				i(d.name), i(v.name), i(c.name))
 			if !c.arg.isVoid {
-				fmt.Fprintf(out, "var in %s\n", c.arg.t.goType())
+				fmt.Fprintf(out, "var in %s\n", c.arg.maybeXdrType())
 				fmt.Fprintf(out, "in.Xdr(args)\n")
 				fmt.Fprintf(out, "err = args.Error()\n")
 				fmt.Fprintf(out, "if err != nil { return }\n")
 			}
 
 			if !c.res.isVoid {
-				fmt.Fprintf(out, "var out %s\n", c.res.t.goType())
+				fmt.Fprintf(out, "var out %s\n", c.res.maybeXdrType())
 			} else {
 				fmt.Fprintf(out, "var out xdr.Void\n")
 			}
-- 
2.43.0


From a09ca210ffacf7e1c6d590d6d8aaf917c156e18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:28 +0000
Subject: [PATCH 11/18] fix: allow the versions of a program to share procedure
 names

The constant was declared once per version, so the ping program given as
an example in the RPC RFC generated code that did not compile.
---
 out.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/out.go b/out.go
index 163eed0..ca0e64f 100644
--- a/out.go
+++ b/out.go
@@ -413,10 +413,16 @@ type progDef struct {
 
 func emitProg(d progDef) {
 	fmt.Fprintf(tout, "const %s uint32 = %s\n", i(d.name), d.id)
+	procIds := make(map[string]string)
 	for _, v := range d.vers {
 		fmt.Fprintf(tout, "const %s uint32 = %s\n", i(v.name), v.id)
 
 		for _, c := range v.calls {
+			// Versions often share procedures; declare each constant once.
+			if id, ok := procIds[c.name]; ok && id == c.id {
+				continue
+			}
+			procIds[c.name] = c.id
 			fmt.Fprintf(tout, "const %s uint32 = %s\n", i(c.name), c.id)
 		}
 
-- 
2.43.0


From 4bc826336dd1392495b5920944fc8c96f681c7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:49 +0000
Subject: [PATCH 12/18] fix: report the supported versions in mismatch replies

RPC_MISMATCH and PROG_MISMATCH replies carried the range 0..0 instead of
the supported RPC version and the registered program versions.
---
 rfc1057/server.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/rfc1057/server.go b/rfc1057/server.go
index cbb5ee9..5eafacf 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -66,6 +66,21 @@ func (s *Server) RegisterMany(regs []xdr.ProcRegistration) {
 	}
 }
 
+// versRange returns the lowest and highest registered versions of a program.
+func versRange(vermap map[uint32]map[uint32]ProcHandler) (low, high uint32) {
+	first := true
+	for v := range vermap {
+		if first || v < low {
+			low = v
+		}
+		if first || v > high {
+			high = v
+		}
+		first = false
+	}
+	return
+}
+
 func (s *Server) Run(rw io.ReadWriter) error {
 	sc := &serverConn{
 		s:  s,
@@ -126,6 +141,8 @@ func (sc *serverConn) handleReqErr(buf []byte) error {
 	if req.Body.Cbody.Rpcvers != 2 {
 		res.Body.Rbody.Stat = MSG_DENIED
 		res.Body.Rbody.Rreply.Stat = RPC_MISMATCH
+		res.Body.Rbody.Rreply.Mismatch_info.Low = 2
+		res.Body.Rbody.Rreply.Mismatch_info.High = 2
 	} else {
 		res.Body.Rbody.Stat = MSG_ACCEPTED
 		vermap, progok := sc.s.handlers[req.Body.Cbody.Prog]
@@ -137,6 +154,8 @@ func (sc *serverConn) handleReqErr(buf []byte) error {
 		procmap, verok := vermap[req.Body.Cbody.Vers]
 		if !verok {
 			res.Body.Rbody.Areply.Reply_data.Stat = PROG_MISMATCH
+			mismatch := &res.Body.Rbody.Areply.Reply_data.Mismatch_info
+			mismatch.Low, mismatch.High = versRange(vermap)
 			goto reply
 		}
 
-- 
2.43.0


From db7fa290b6c556af59a0c88b6cec8d2c5ea029f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:51 +0000
Subject: [PATCH 13/18] fix: do not append a result to a GARBAGE_ARGS reply

A handler that returned both an error and a result made the reply carry
the result.
---
 rfc1057/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rfc1057/server.go b/rfc1057/server.go
index 5eafacf..0700abe 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -168,6 +168,7 @@ func (sc *serverConn) handleReqErr(buf []byte) error {
 		resdata, err = h(rd)
 		if err != nil {
 			res.Body.Rbody.Areply.Reply_data.Stat = GARBAGE_ARGS
+			resdata = nil
 			goto reply
 		}
 
-- 
2.43.0


From 13af500129b71c4b59181f348b89bc88fb11fc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:52 +0000
Subject: [PATCH 14/18] fix: answer a call whose result cannot be encoded with
 SYSTEM_ERR

Such a call, for instance with a string longer than its bound in the
result, got no reply at all, leaving the client waiting forever.
---
 rfc1057/prot.x    |  3 ++-
 rfc1057/server.go | 16 ++++++++++++----
 rfc1057/types.go  |  1 +
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/rfc1057/prot.x b/rfc1057/prot.x
index 33e92da..300dce2 100644
--- a/rfc1057/prot.x
+++ b/rfc1057/prot.x
@@ -23,7 +23,8 @@ enum accept_stat {
    PROG_UNAVAIL  = 1, /* remote hasn't exported program  */
    PROG_MISMATCH = 2, /* remote can't support version #  */
    PROC_UNAVAIL  = 3, /* program can't support procedure */
-   GARBAGE_ARGS  = 4  /* procedure can't decode params   */ };
+   GARBAGE_ARGS  = 4, /* procedure can't decode params   */
+   SYSTEM_ERR    = 5  /* server cannot produce a result  */ };
 
 enum reject_stat {
    RPC_MISMATCH = 0, /* RPC version number != 2          */
diff --git a/rfc1057/server.go b/rfc1057/server.go
index 0700abe..7cf3654 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -135,6 +135,7 @@ func (sc *serverConn) handleReqErr(buf []byte) error {
 
 	var res Rpc_msg
 	var resdata xdr.Xdrable
+	var reserr error
 	res.Xid = req.Xid
 	res.Body.Mtype = REPLY
 
@@ -188,9 +189,12 @@ reply:
 
 	if resdata != nil {
 		resdata.Xdr(wr)
-		err = wr.Error()
-		if err != nil {
-			return err
+		reserr = wr.Error()
+		if reserr != nil {
+			// The caller is waiting for a reply all the same.
+			res.Body.Rbody.Areply.Reply_data.Stat = SYSTEM_ERR
+			resdata = nil
+			goto reply
 		}
 	}
 
@@ -198,5 +202,9 @@ reply:
 	binary.BigEndian.PutUint32(wbuf[0:4], (1<<31)|uint32(len(wbuf)-4))
 
 	_, err = sc.rw.Write(wbuf)
-	return err
+	if err != nil {
+		return err
+	}
+
+	return reserr
 }
diff --git a/rfc1057/types.go b/rfc1057/types.go
index 0f37241..8c4d953 100644
--- a/rfc1057/types.go
+++ b/rfc1057/types.go
@@ -28,6 +28,7 @@ const PROG_UNAVAIL Accept_stat = 1
 const PROG_MISMATCH Accept_stat = 2
 const PROC_UNAVAIL Accept_stat = 3
 const GARBAGE_ARGS Accept_stat = 4
+const SYSTEM_ERR Accept_stat = 5
 
 type Reject_stat uint32
 
-- 
2.43.0


From ccbc0da39ae4639b1f50a4e257684b2b626c98f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:33 +0000
Subject: [PATCH 15/18] fix: convert named constants to the type they are used
 as

With -const-type, or when a constant, enum value or union case refers to a
constant of another type, the generated declarations and switches mixed
types and did not compile.
---
 out.go         | 16 ++++++++++---
 rfc1057/xdr.go | 16 ++++++-------
 rfc1813/xdr.go | 62 +++++++++++++++++++++++++-------------------------
 3 files changed, 52 insertions(+), 42 deletions(-)

diff --git a/out.go b/out.go
index ca0e64f..82e9b98 100644
--- a/out.go
+++ b/out.go
@@ -336,18 +336,19 @@ func (t typeUnion) goType() string {
 
 func (t typeUnion) goXdr(valPtr string) string {
 	var res string
-	var switchName string
+	var switchName, switchType string
 	switch v := t.switchDecl.(type) {
 	case declVoid:
 		panic("void union switch")
 	case declName:
 		switchName = fmt.Sprintf("(%s).%s", valPtr, i(v.n))
+		switchType = v.t.goType()
 		res += v.t.goXdr(fmt.Sprintf("&(%s)", switchName))
 	}
 	res += fmt.Sprintf("switch %s {\n", switchName)
 	for _, c := range t.cases.cases {
 		for idx, cval := range c.cases {
-			res += fmt.Sprintf("case %s:\n", cval)
+			res += fmt.Sprintf("case %s:\n", constOf(switchType, cval))
 			if idx != len(c.cases)-1 {
 				res += "fallthrough\n"
 			}
@@ -377,6 +378,15 @@ func (t typeIdent) goXdr(valPtr string) string {
 	return fmt.Sprintf("(*%s)(%s).Xdr(xs);\n", i(t.n), valPtr)
 }
 
+// constOf returns the constant val as a value of type goType.  A named constant
+// may have been declared with another type; literals and booleans need nothing.
+func constOf(goType string, val string) string {
+	if val == "true" || val == "false" || (val[0] >= '0' && val[0] <= '9') {
+		return val
+	}
+	return fmt.Sprintf("%s(%s)", goType, val)
+}
+
 type enumItem struct {
 	name string
 	val  string
@@ -520,7 +530,7 @@ func emitEnum(ident string, val []enumItem) {
 	fmt.Fprintf(out, "}\n")
 
 	for _, v := range val {
-		fmt.Fprintf(tout, "const %s %s = %s\n", i(v.name), i(ident), v.val)
+		fmt.Fprintf(tout, "const %s %s = %s\n", i(v.name), i(ident), constOf(i(ident), v.val))
 	}
 }
 
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index db3b03c..78dc326 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -28,9 +28,9 @@ func (v *Rpc_msg) Xdr(xs *xdr.XdrState) {
 	xdr.XdrU32(xs, (*uint32)(&((v).Xid)))
 	(*Msg_type)(&((&((v).Body)).Mtype)).Xdr(xs)
 	switch (&((v).Body)).Mtype {
-	case CALL:
+	case Msg_type(CALL):
 		(*Call_body)(&((&((v).Body)).Cbody)).Xdr(xs)
-	case REPLY:
+	case Msg_type(REPLY):
 		(*Reply_body)(&((&((v).Body)).Rbody)).Xdr(xs)
 	}
 }
@@ -45,9 +45,9 @@ func (v *Call_body) Xdr(xs *xdr.XdrState) {
 func (v *Reply_body) Xdr(xs *xdr.XdrState) {
 	(*Reply_stat)(&((v).Stat)).Xdr(xs)
 	switch (v).Stat {
-	case MSG_ACCEPTED:
+	case Reply_stat(MSG_ACCEPTED):
 		(*Accepted_reply)(&((v).Areply)).Xdr(xs)
-	case MSG_DENIED:
+	case Reply_stat(MSG_DENIED):
 		(*Rejected_reply)(&((v).Rreply)).Xdr(xs)
 	}
 }
@@ -55,9 +55,9 @@ func (v *Accepted_reply) Xdr(xs *xdr.XdrState) {
 	(*Opaque_auth)(&((v).Verf)).Xdr(xs)
 	(*Accept_stat)(&((&((v).Reply_data)).Stat)).Xdr(xs)
 	switch (&((v).Reply_data)).Stat {
-	case SUCCESS:
+	case Accept_stat(SUCCESS):
 		xdr.XdrArray(xs, (*&((&((v).Reply_data)).Results))[:])
-	case PROG_MISMATCH:
+	case Accept_stat(PROG_MISMATCH):
 		xdr.XdrU32(xs, (*uint32)(&((&((&((v).Reply_data)).Mismatch_info)).Low)))
 		xdr.XdrU32(xs, (*uint32)(&((&((&((v).Reply_data)).Mismatch_info)).High)))
 	default:
@@ -66,10 +66,10 @@ func (v *Accepted_reply) Xdr(xs *xdr.XdrState) {
 func (v *Rejected_reply) Xdr(xs *xdr.XdrState) {
 	(*Reject_stat)(&((v).Stat)).Xdr(xs)
 	switch (v).Stat {
-	case RPC_MISMATCH:
+	case Reject_stat(RPC_MISMATCH):
 		xdr.XdrU32(xs, (*uint32)(&((&((v).Mismatch_info)).Low)))
 		xdr.XdrU32(xs, (*uint32)(&((&((v).Mismatch_info)).High)))
-	case AUTH_ERROR:
+	case Reject_stat(AUTH_ERROR):
 		(*Auth_stat)(&((v).Astat)).Xdr(xs)
 	}
 }
diff --git a/rfc1813/xdr.go b/rfc1813/xdr.go
index 4c9ef86..8ae443c 100644
--- a/rfc1813/xdr.go
+++ b/rfc1813/xdr.go
@@ -150,7 +150,7 @@ func (v *Set_size3) Xdr(xs *xdr.XdrState) {
 func (v *Set_atime) Xdr(xs *xdr.XdrState) {
 	(*Time_how)(&((v).Set_it)).Xdr(xs)
 	switch (v).Set_it {
-	case SET_TO_CLIENT_TIME:
+	case Time_how(SET_TO_CLIENT_TIME):
 		(*Nfstime3)(&((v).Atime)).Xdr(xs)
 	default:
 	}
@@ -158,7 +158,7 @@ func (v *Set_atime) Xdr(xs *xdr.XdrState) {
 func (v *Set_mtime) Xdr(xs *xdr.XdrState) {
 	(*Time_how)(&((v).Set_it)).Xdr(xs)
 	switch (v).Set_it {
-	case SET_TO_CLIENT_TIME:
+	case Time_how(SET_TO_CLIENT_TIME):
 		(*Nfstime3)(&((v).Mtime)).Xdr(xs)
 	default:
 	}
@@ -586,7 +586,7 @@ func (v *GETATTR3resok) Xdr(xs *xdr.XdrState) {
 func (v *GETATTR3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*GETATTR3resok)(&((v).Resok)).Xdr(xs)
 	default:
 	}
@@ -613,7 +613,7 @@ func (v *SETATTR3resfail) Xdr(xs *xdr.XdrState) {
 func (v *SETATTR3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*SETATTR3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*SETATTR3resfail)(&((v).Resfail)).Xdr(xs)
@@ -633,7 +633,7 @@ func (v *LOOKUP3resfail) Xdr(xs *xdr.XdrState) {
 func (v *LOOKUP3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*LOOKUP3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*LOOKUP3resfail)(&((v).Resfail)).Xdr(xs)
@@ -653,7 +653,7 @@ func (v *ACCESS3resfail) Xdr(xs *xdr.XdrState) {
 func (v *ACCESS3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*ACCESS3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*ACCESS3resfail)(&((v).Resfail)).Xdr(xs)
@@ -672,7 +672,7 @@ func (v *READLINK3resfail) Xdr(xs *xdr.XdrState) {
 func (v *READLINK3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*READLINK3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*READLINK3resfail)(&((v).Resfail)).Xdr(xs)
@@ -695,7 +695,7 @@ func (v *READ3resfail) Xdr(xs *xdr.XdrState) {
 func (v *READ3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*READ3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*READ3resfail)(&((v).Resfail)).Xdr(xs)
@@ -723,7 +723,7 @@ func (v *WRITE3resfail) Xdr(xs *xdr.XdrState) {
 func (v *WRITE3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*WRITE3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*WRITE3resfail)(&((v).Resfail)).Xdr(xs)
@@ -735,11 +735,11 @@ func (v *Createmode3) Xdr(xs *xdr.XdrState) {
 func (v *Createhow3) Xdr(xs *xdr.XdrState) {
 	(*Createmode3)(&((v).Mode)).Xdr(xs)
 	switch (v).Mode {
-	case UNCHECKED:
+	case Createmode3(UNCHECKED):
 		fallthrough
-	case GUARDED:
+	case Createmode3(GUARDED):
 		(*Sattr3)(&((v).Obj_attributes)).Xdr(xs)
-	case EXCLUSIVE:
+	case Createmode3(EXCLUSIVE):
 		(*Createverf3)(&((v).Verf)).Xdr(xs)
 	}
 }
@@ -758,7 +758,7 @@ func (v *CREATE3resfail) Xdr(xs *xdr.XdrState) {
 func (v *CREATE3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*CREATE3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*CREATE3resfail)(&((v).Resfail)).Xdr(xs)
@@ -779,7 +779,7 @@ func (v *MKDIR3resfail) Xdr(xs *xdr.XdrState) {
 func (v *MKDIR3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*MKDIR3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*MKDIR3resfail)(&((v).Resfail)).Xdr(xs)
@@ -804,7 +804,7 @@ func (v *SYMLINK3resfail) Xdr(xs *xdr.XdrState) {
 func (v *SYMLINK3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*SYMLINK3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*SYMLINK3resfail)(&((v).Resfail)).Xdr(xs)
@@ -817,13 +817,13 @@ func (v *Devicedata3) Xdr(xs *xdr.XdrState) {
 func (v *Mknoddata3) Xdr(xs *xdr.XdrState) {
 	(*Ftype3)(&((v).Ftype)).Xdr(xs)
 	switch (v).Ftype {
-	case NF3CHR:
+	case Ftype3(NF3CHR):
 		fallthrough
-	case NF3BLK:
+	case Ftype3(NF3BLK):
 		(*Devicedata3)(&((v).Device)).Xdr(xs)
-	case NF3SOCK:
+	case Ftype3(NF3SOCK):
 		fallthrough
-	case NF3FIFO:
+	case Ftype3(NF3FIFO):
 		(*Sattr3)(&((v).Pipe_attributes)).Xdr(xs)
 	default:
 	}
@@ -843,7 +843,7 @@ func (v *MKNOD3resfail) Xdr(xs *xdr.XdrState) {
 func (v *MKNOD3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*MKNOD3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*MKNOD3resfail)(&((v).Resfail)).Xdr(xs)
@@ -861,7 +861,7 @@ func (v *REMOVE3resfail) Xdr(xs *xdr.XdrState) {
 func (v *REMOVE3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*REMOVE3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*REMOVE3resfail)(&((v).Resfail)).Xdr(xs)
@@ -879,7 +879,7 @@ func (v *RMDIR3resfail) Xdr(xs *xdr.XdrState) {
 func (v *RMDIR3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*RMDIR3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*RMDIR3resfail)(&((v).Resfail)).Xdr(xs)
@@ -900,7 +900,7 @@ func (v *RENAME3resfail) Xdr(xs *xdr.XdrState) {
 func (v *RENAME3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*RENAME3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*RENAME3resfail)(&((v).Resfail)).Xdr(xs)
@@ -921,7 +921,7 @@ func (v *LINK3resfail) Xdr(xs *xdr.XdrState) {
 func (v *LINK3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*LINK3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*LINK3resfail)(&((v).Resfail)).Xdr(xs)
@@ -986,7 +986,7 @@ func (v *READDIR3resfail) Xdr(xs *xdr.XdrState) {
 func (v *READDIR3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*READDIR3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*READDIR3resfail)(&((v).Resfail)).Xdr(xs)
@@ -1054,7 +1054,7 @@ func (v *READDIRPLUS3resfail) Xdr(xs *xdr.XdrState) {
 func (v *READDIRPLUS3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*READDIRPLUS3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*READDIRPLUS3resfail)(&((v).Resfail)).Xdr(xs)
@@ -1079,7 +1079,7 @@ func (v *FSSTAT3resfail) Xdr(xs *xdr.XdrState) {
 func (v *FSSTAT3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*FSSTAT3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*FSSTAT3resfail)(&((v).Resfail)).Xdr(xs)
@@ -1107,7 +1107,7 @@ func (v *FSINFO3resfail) Xdr(xs *xdr.XdrState) {
 func (v *FSINFO3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*FSINFO3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*FSINFO3resfail)(&((v).Resfail)).Xdr(xs)
@@ -1131,7 +1131,7 @@ func (v *PATHCONF3resfail) Xdr(xs *xdr.XdrState) {
 func (v *PATHCONF3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*PATHCONF3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*PATHCONF3resfail)(&((v).Resfail)).Xdr(xs)
@@ -1152,7 +1152,7 @@ func (v *COMMIT3resfail) Xdr(xs *xdr.XdrState) {
 func (v *COMMIT3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*COMMIT3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*COMMIT3resfail)(&((v).Resfail)).Xdr(xs)
@@ -1288,7 +1288,7 @@ func (v *Mountres3_ok) Xdr(xs *xdr.XdrState) {
 func (v *Mountres3) Xdr(xs *xdr.XdrState) {
 	(*Mountstat3)(&((v).Fhs_status)).Xdr(xs)
 	switch (v).Fhs_status {
-	case MNT3_OK:
+	case Mountstat3(MNT3_OK):
 		(*Mountres3_ok)(&((v).Mountinfo)).Xdr(xs)
 	default:
 	}
-- 
2.43.0


From bb8dc66569c554a66d37840fc14e9c7f2074df00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:29 +0000
Subject: [PATCH 16/18] fix: allow programs to share the names of versions and
 procedures

---
 out.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/out.go b/out.go
index 82e9b98..4c6509c 100644
--- a/out.go
+++ b/out.go
@@ -421,19 +421,26 @@ type progDef struct {
 	id   string
 }
 
+// progConsts has the versions and procedures declared so far.
+var progConsts = make(map[string]string)
+
+// emitProgConst declares the number of a version or procedure.  Versions often
+// share procedures, and programs versions; declare each constant once.
+func emitProgConst(name string, id string) {
+	if old, ok := progConsts[name]; ok && old == id {
+		return
+	}
+	progConsts[name] = id
+	fmt.Fprintf(tout, "const %s uint32 = %s\n", i(name), id)
+}
+
 func emitProg(d progDef) {
 	fmt.Fprintf(tout, "const %s uint32 = %s\n", i(d.name), d.id)
-	procIds := make(map[string]string)
 	for _, v := range d.vers {
-		fmt.Fprintf(tout, "const %s uint32 = %s\n", i(v.name), v.id)
+		emitProgConst(v.name, v.id)
 
 		for _, c := range v.calls {
-			// Versions often share procedures; declare each constant once.
-			if id, ok := procIds[c.name]; ok && id == c.id {
-				continue
-			}
-			procIds[c.name] = c.id
-			fmt.Fprintf(tout, "const %s uint32 = %s\n", i(c.name), c.id)
+			emitProgConst(c.name, c.id)
 		}
 
 		fmt.Fprintf(out, "type %s_%s_handler interface {\n", i(d.name), i(v.name))
-- 
2.43.0


From 15d0b5f4bbeb9e7be62249714fb5aa5d3de7ed6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:31 +0000
Subject: [PATCH 17/18] fix: generate compilable code for a version without
 procedures

---
 out.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/out.go b/out.go
index 4c6509c..eab8555 100644
--- a/out.go
+++ b/out.go
@@ -483,7 +483,9 @@ func emitProg(d progDef) {
 		}
 
 		fmt.Fprintf(out, "func %s_%s_regs(h %s_%s_handler) []xdr.ProcRegistration {\n", i(d.name), i(v.name), i(d.name), i(v.name))
-		fmt.Fprintf(out, "w := &%s_%s_handler_wrapper{h}\n", i(d.name), i(v.name))
+		if len(v.calls) > 0 {
+			fmt.Fprintf(out, "w := &%s_%s_handler_wrapper{h}\n", i(d.name), i(v.name))
+		}
 		fmt.Fprintf(out, "return []xdr.ProcRegistration{\n")
 		for _, c := range v.calls {
 			fmt.Fprintf(out, "xdr.ProcRegistration{\n")
-- 
2.43.0


From d1fd3d0346da80b032acf208ee1cf5868535f6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:43 +0000
Subject: [PATCH 18/18] fix: write no output before all of them are known to be
 good

---
 main.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index 648d145..d3889ad 100644
--- a/main.go
+++ b/main.go
@@ -78,15 +78,18 @@ func main() {
 
 	xdrParse(&l)
 	outf.Close()
-	refmt(outTmp, *outputFile)
+	outBuf := refmt(outTmp)
 
 	if *typesFile != "" {
 		toutf.Close()
-		refmt(toutTmp, *typesFile)
+		toutBuf := refmt(toutTmp)
+		writeFile(*typesFile, toutBuf)
 	}
+
+	writeFile(*outputFile, outBuf)
 }
 
-func refmt(infile string, outfile string) {
+func refmt(infile string) []byte {
 	buf, err := ioutil.ReadFile(infile)
 	if err != nil {
 		panic(err)
@@ -97,7 +100,11 @@ func refmt(infile string, outfile string) {
 		panic(err)
 	}
 
-	err = ioutil.WriteFile(outfile, buf, 0666)
+	return buf
+}
+
+func writeFile(outfile string, buf []byte) {
+	err := ioutil.WriteFile(outfile, buf, 0666)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0

