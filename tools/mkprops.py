#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording stays in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Encoding produces exactly the RFC 4506 bytes",
 "For every value that respects its declared bounds, of every supported XDR type (the library primitives, any type the generator emits, the shipped RFC 1057/1813 types), encoding succeeds and appends exactly the RFC 4506 representation. That is: big-endian two's-complement integers, 0/1 booleans, length prefixes, zero padding to a multiple of four bytes, array elements in order, a presence flag for optional data, and for a union its discriminant followed by the selected arm and nothing else.",
 ["inputs", "programs"], "all XDR types (nested to any depth) and all their values, including every length residue mod 4, extreme integers and payloads larger than 64 KiB",
 "The xdr tests encode two short values and never look at the bytes; the fuzz targets run three seeds of two types and compare only a round trip, so a codec that is wrong the same way in both directions passes.",
 ["xdr/lib.go", "xdr/types.go", "xdr/helper.go", "out.go", "rfc1057/xdr.go", "rfc1813/xdr.go"],
 [("primitive codecs XdrBool/XdrU32/XdrS32/XdrU64/XdrS64/XdrArray/XdrVarArray/XdrString", "xdr/lib.go"),
  ("goXdr code templates per declaration kind", "out.go")],
 [("XdrState.buf", "bytes already written", "xdr/lib.go")], ["xdr.EncodeBuf", "XdrState.WriteBuf"])

prop("C02", "Decoding inverts encoding",
 "Decoding the encoding of any in-bounds value yields an equal value without error and consumes exactly the bytes of that encoding, leaving whatever follows available to the next decode. The result depends on the bytes alone: it is the same whatever the destination variable held before (unselected union arms are not part of a value).",
 ["inputs", "programs", "histories"], "all types, all values, all suffixes, and all prior contents of the destination",
 "The fuzz seeds decode only into fresh zero variables and only three messages; nothing decodes two values from one stream or reuses a destination.",
 ["xdr/lib.go", "xdr/helper.go", "out.go", "rfc1057/xdr.go", "rfc1813/xdr.go"],
 [("reader half of each primitive", "xdr/lib.go"), ("decode half of arrays, optional data and unions", "out.go")],
 [("XdrState.buf", "bytes not yet consumed", "xdr/lib.go")], ["xdr.DecodeBuf", "MakeReader + successive Xdr calls"])

prop("C03", "Decoding arbitrary bytes is total, safe and memory-bounded",
 "For every byte string and every type, decoding returns either a value or an error: it never panics, crashes, hangs or reads outside the given bytes. Every strict prefix of a valid encoding is an error, and the memory allocated is at most proportional to the length of the input, whatever lengths the input claims.",
 ["inputs", "programs"], "all byte strings (in particular truncated and bit-flipped encodings and huge claimed lengths) for all types",
 "Only two truncated inputs are unit-tested, on the library primitives; the fuzz targets run three seeds in the test suite.",
 ["xdr/lib.go", "out.go", "rfc1057/xdr.go", "rfc1813/xdr.go"],
 [("length checks before slicing in xdrR/xdrRW", "xdr/lib.go"), ("array decode template", "out.go")],
 [("XdrState.buf", "bytes not yet consumed", "xdr/lib.go"), ("XdrState.err", "failure", "xdr/lib.go")], ["xdr.DecodeBuf"])

prop("C04", "Declared size bounds hold in both directions",
 "For every bounded string, variable-length opaque and variable-length array, a length up to and including the declared maximum is accepted and a longer one is an error, both when encoding and when decoding. A declaration without a maximum accepts any length, and fixed-length data has exactly its declared length on the wire.",
 ["inputs", "programs"], "all bounds (including 0 and named constants) and all lengths around them, for strings, opaques and arrays of any element type, generated or shipped",
 "No test uses a length near its bound; the two large-length tests truncate the payload instead.",
 ["xdr/lib.go", "out.go", "rfc1057/xdr.go", "rfc1813/xdr.go"],
 [("maxlen comparisons", "xdr/lib.go XdrVarArray/XdrString"), ("__arraysz comparison", "out.go declTypeVarArray")],
 [], ["XdrState.Error", "xdr.EncodeBuf", "xdr.DecodeBuf"])

prop("C05", "XDR stream errors are sticky and always reported",
 "Once any operation on an XDR stream has failed, or a user codec has set an error, the stream stays failed: later operations neither consume input, nor emit output, nor store into their destinations, nor clear the error. Encode and decode helpers report an error whenever any part of the value failed.",
 ["histories", "inputs"], "all sequences of operations, on readers and writers, before and after a failure at any position",
 "Tests run a single operation per stream; none continues after a failure or mixes operations.",
 ["xdr/lib.go", "xdr/helper.go", "out.go"],
 [("err check at the head of each primitive; Encoding()/Decoding() guards", "xdr/lib.go"), ("guards in generated array and optional code", "out.go")],
 [("XdrState.err", "failure", "xdr/lib.go"), ("XdrState.buf", "remaining or produced bytes", "xdr/lib.go")], ["XdrState.Error", "XdrState.WriteBuf", "Encoding()/Decoding()"])

prop("C06", "Decoded fields and encoded buffers do not corrupt one another",
 "Overwriting the contents of, or appending to, one decoded byte field never changes another decoded field of the same message nor the bytes still to be decoded. An encoded buffer never changes when the value it was encoded from, or a later value encoded by another writer, is modified, nor when another encoded buffer is overwritten or appended to. Decoding into a variable again never changes data taken from it before.",
 ["histories", "inputs"], "all messages with several variable-length fields, all orders of decode, append and overwrite",
 "No test modifies a decoded value or keeps decoding after one; aliasing is invisible to a round-trip comparison.",
 ["xdr/lib.go"], [("capacity-limited sub-slices of the input; copying on append", "xdr/lib.go xdrR, xdrRW")],
 [("XdrState.buf", "shared input buffer", "xdr/lib.go")], ["decoded []byte fields", "XdrState.WriteBuf"])

prop("C07", "Generated Go means what the .x specification says",
 "For every accepted specification that defines at least one type or procedure, the emitted Go compiles and declares every constant, enum value, type and field with the declared (capitalised) name, kind and numeric value, and its codecs implement exactly the declared types. Options change only what they name: separate types file, package name, enum signedness, constant type (and debugging output, which is not part of the files); the encoding stays the same, and the output is deterministic.",
 ["programs", "configurations"], "all specifications in the supported RFC 4506 subset (no floating point, no inline enums, no negative constants) and all option combinations",
 "The generator has no tests; CI only regenerates two specifications that use a fraction of the declaration forms (for instance no fixed arrays of non-opaque elements).",
 ["out.go", "scan.go", "xdr.y", "main.go"],
 [("parser actions", "xdr.y"), ("goType/goXdr and emit* templates", "out.go")], [], ["generated files, compiled and executed"])

prop("C08", "The generator accepts exactly the grammar, all or nothing",
 "A text in the supported XDR/RPC grammar is accepted in every layout of white space, newlines and comments; a text outside it (bad syntax, illegal or unterminated token) or using an unsupported type makes the generator exit non-zero. On such a failure every output file that existed before is left byte-for-byte unchanged, none is created, and no temporary file remains; the same holds when it fails for another reason it can tell beforehand (an option, the input file missing, an output in a directory that does not exist). On success the temporaries are gone too.",
 ["programs", "configurations"], "all token sequences and layouts, with and without a separate types file, with pre-existing or missing outputs",
 "There is no test of the lexer, the parser or the file handling at all.",
 ["scan.go", "xdr.y", "main.go"],
 [("goyacc grammar", "xdr.y"), ("token mapping", "scan.go Lex"), ("temporary files and reformatting", "main.go")], [], ["exit status", "output directory contents"])

prop("C09", "Generated program glue dispatches each procedure to its own method",
 "For every declared program, the registrations of a version list exactly its procedures with the declared program, version and procedure numbers. Invoking a registration decodes the declared argument and calls exactly the method of that procedure once with it, returning that method's result for encoding; if the argument does not decode, an error is returned and no method is called.",
 ["programs", "inputs"], "all program/version/procedure declarations, generated or shipped, with void or typed arguments and results, and all argument bytes",
 "No test instantiates a handler or calls a registration.",
 ["out.go", "rfc1057/xdr.go", "rfc1813/xdr.go", "xdr/types.go"],
 [("emitProg", "out.go"), ("*_regs and *_handler_wrapper", "rfc1057/xdr.go, rfc1813/xdr.go")], [], ["ProcRegistration.Prog/Vers/Proc/Handler"])

prop("C10", "Shipped SunRPC, portmapper, NFSv3 and MOUNT bindings match their RFCs",
 "Every type, constant, enum value and procedure number of the shipped RFC 1057 and RFC 1813 packages is the one the RFC (or its successor, RFC 5531) defines. Each shipped type encodes and decodes exactly as the RFC's XDR definition of it prescribes, field by field and arm by arm. The same holds of the packages that are generated anew from the shipped specification files with the documented options.",
 ["inputs"], "all shipped types and all their values, all shipped constants and procedures",
 "Two of about 150 types are fuzz seeds, and only for round trip; no test knows an RFC value.",
 ["rfc1057/types.go", "rfc1057/xdr.go", "rfc1813/types.go", "rfc1813/xdr.go", "rfc1057/prot.x", "rfc1813/prot.x"],
 [("generated types and codecs", "rfc1057, rfc1813")], [], ["exported types, constants and *_regs functions"])

prop("C11", "Every well-formed call gets exactly one correct reply",
 "For every record that is a well-formed call, the server sends on the same connection exactly one reply record carrying the call's xid: MSG_DENIED/RPC_MISMATCH with range 2..2 if the RPC version is not 2, otherwise accepted with PROG_UNAVAIL, PROG_MISMATCH (with the lowest and highest registered version), PROC_UNAVAIL, GARBAGE_ARGS if the handler reports an error, SYSTEM_ERR if its result cannot be encoded, or SUCCESS followed by the encoded result. Only a SUCCESS reply carries a result, and records that are not well-formed calls get no reply.",
 ["inputs", "histories", "configurations"], "all call headers, credentials, argument bytes, registration tables and handler outcomes, in any sequence",
 "There is no server test.",
 ["rfc1057/server.go", "rfc1057/xdr.go", "rfc1057/types.go"],
 [("dispatch and reply construction", "rfc1057/server.go handleReqErr"), ("handler table", "rfc1057/server.go Register")],
 [("Server.handlers", "registration table", "rfc1057/server.go")], ["bytes written to the transport"])

prop("C12", "A handler runs exactly once per call addressed to it, and never otherwise",
 "A registered handler is invoked exactly once for each well-formed version-2 call naming its program, version and procedure, and receives exactly the bytes that follow the call header. It is never invoked for any other record, and when a triple is registered repeatedly the latest registration is the one invoked.",
 ["inputs", "histories", "configurations"], "all registration tables, call sequences and malformed records",
 "There is no server test; registration tables with shared programs or versions are never built.",
 ["rfc1057/server.go"],
 [("three-level lookup", "rfc1057/server.go handleReqErr"), ("Register/RegisterMany", "rfc1057/server.go")],
 [("Server.handlers", "registration table", "rfc1057/server.go")], ["handler invocations and the XdrState they receive"])

prop("C13", "Concurrent calls do not interfere",
 "Under every interleaving of requests on one or several connections, a handler's decoded arguments stay unchanged from its invocation until its reply has been written, and each reply is the one computed for its own call. Each reply reaches the transport as one contiguous record in a single write, and a call whose handler is blocked delays no other call.",
 ["schedules", "histories"], "all interleavings of receiving, handling, result encoding and replying for any number of outstanding calls and connections, with request buffers being reused",
 "No test runs the server, let alone two requests at once; buffer-reuse races appear only under particular schedules.",
 ["rfc1057/server.go"],
 [("one goroutine per request", "rfc1057/server.go Run"), ("reqBufPool get/put", "rfc1057/server.go"), ("length prefix reserved so that a reply is one Write", "rfc1057/server.go handleReqErr")],
 [("reqBufPool", "free request buffers", "rfc1057/server.go"), ("buf", "request buffer owned by one in-flight call", "rfc1057/server.go")], ["handler entry/exit, result encoding, transport Read/Write"])

prop("C14", "The server's record stream is framed exactly and survives bad records",
 "The records the server acts on depend only on the byte stream, not on how the transport splits it: each 4-byte mark with its top bit set delimits the next 31-bit length of bytes as one record. A mark without the top bit, or end of stream or an error in the middle of a mark or record, makes the serving loop return an error without acting on that record, while a complete record that is not a well-formed call is dropped and later records are served as usual; at end of stream the loop returns, and calls already accepted still complete.",
 ["inputs", "fault_sequences", "histories"], "all byte streams, all splits into reads, all failure points",
 "There is no server test and none of record marking.",
 ["rfc1057/server.go"],
 [("ReadFull of mark and record", "rfc1057/server.go Run"), ("error returns of handleReqErr", "rfc1057/server.go")],
 [("hdr/hlen/buf", "record being received", "rfc1057/server.go")], ["return value of Run", "handler invocations", "bytes written"])

prop("C15", "A client call succeeds only on its own accepted, decodable reply",
 "A client call returns nil if and only if the peer answered with a single complete final record holding a reply with the call's xid, MSG_ACCEPTED, SUCCESS, and a result that decodes; then the result variable holds exactly that result. Every other answer (wrong xid, a call message, denied, any non-SUCCESS status, undecodable or truncated data, non-final fragment, transport error) makes it return an error, without panicking, and the result variable is not touched unless the reply was a matching success.",
 ["inputs", "fault_sequences", "histories"], "all peer answers, split arbitrarily and cut anywhere, over sequences of calls on one connection",
 "There is no client test.",
 ["rfc1057/client.go", "rfc1057/xdr.go"],
 [("reply checks in Call", "rfc1057/client.go")], [("Client.xid", "xid of the latest call", "rfc1057/client.go")], ["return value of Call and the result variable"])

prop("C16", "A client sends one well-formed call per Call and stays in step",
 "Each Call writes exactly one complete record, in a single write: an RPC version 2 call message with an xid never used before on this client, the client's program and version, the given procedure, credential and verifier, followed by the encoded arguments. If the arguments or credentials cannot be encoded it writes nothing and returns an error, and a Call that received a complete reply record consumes exactly that record, so the next Call on the connection works whatever the outcome of this one.",
 ["inputs", "histories"], "all programs, procedures, credentials and arguments, over all sequences of calls and outcomes",
 "There is no client test.",
 ["rfc1057/client.go"],
 [("request construction and record mark", "rfc1057/client.go Call")], [("Client.xid", "xid of the latest call", "rfc1057/client.go")], ["bytes written to and read from the transport"])

prop("C17", "End to end, each client gets the results of its own calls",
 "With any number of clients, each on its own connection to one server with generated glue, every Call returns what the addressed handler returned for exactly the arguments that were passed, in call order per client, and each call runs its handler exactly once. Failures of one connection or malformed traffic on it never affect the calls of another.",
 ["schedules", "histories", "inputs", "fault_sequences"], "all interleavings of clients, calls, handler delays and connection failures",
 "No test connects a client to a server.",
 ["rfc1057/client.go", "rfc1057/server.go", "rfc1057/xdr.go", "rfc1813/xdr.go", "xdr/lib.go"],
 [("Client.Call, Server.Run, generated wrappers", "rfc1057")], [], ["Call results, handler invocations"])

prop("C18", "The example client and server carry out their conversations",
 "The example client asks the portmapper on port 111 for the TCP ports of MOUNT version 3 and NFS version 3, mounts \"/\", looks up \"foo\" in the root handle it was given and \"bar\" in foo's, and renames root/foo to bar/foonew (AUTH_UNIX towards NFS, AUTH_NONE elsewhere). Each request uses exactly the port and handles earlier answers gave; the first failed or refusing answer ends it with a non-zero status and nothing more is sent, and it ends with status zero if the first five answers are successes and the last is a decodable RPC success. The example server removes any old mapping and then registers its own listening port for MOUNT 3 and NFS 3; if that fails it ends with a non-zero status, taking back the mapping it had made; otherwise it serves every connection of that port as an RPC server without procedures does, whatever happens on the other connections.",
 ["histories", "inputs", "fault_sequences"], "all answers of the services at every step, and all interleavings of connections to the server",
 "The example programs have no test at all; they need a portmapper and an NFS server.",
 ["example/client/main.go", "example/server/main.go", "rfc1057/client.go", "rfc1057/server.go", "rfc1813/xdr.go"],
 [("pmap_client, lookup and main", "example/client/main.go"), ("pmap_set_unset, main and its accept loop", "example/server/main.go")], [], ["TCP connections of the two programs and their exit status"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
