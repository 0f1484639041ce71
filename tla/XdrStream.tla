----------------------------- MODULE XdrStream -----------------------------
(***************************************************************************)
(* The stream objects of the library as a state machine.                   *)
(*                                                                         *)
(* A behaviour works on one decoding stream, two encoding streams, and the *)
(* helpers EncodeBuf and DecodeBuf.  Every step is one call of the library *)
(* or one thing its user does with the data it was given: overwriting or   *)
(* appending to a decoded byte field, or changing a value that has been    *)
(* encoded.  The state says what each stream, each value decoded so far    *)
(* and each buffer encoded so far must look like, and after each step the  *)
(* replay compares all of them with the real objects.                      *)
(*                                                                         *)
(* The types are those of the library and user codecs built from them; the *)
(* kind "fail" is a user codec that only calls SetError.                   *)
(***************************************************************************)
EXTENDS Xdr, Json, CSV, IOUtils

Env == [ bo |-> TBool, i32 |-> TInt, u32 |-> TUint, i64 |-> THyper, u64 |-> TUhyper,
         a0 |-> TFixed(0), a3 |-> TFixed(3), a4 |-> TFixed(4), a5 |-> TFixed(5),
         vN |-> TOpaque(-1), v3 |-> TOpaque(3), v5 |-> TOpaque(5),
         sN |-> TString(-1), s3 |-> TString(3),
         fail |-> [k |-> "fail"],
         bomb |-> TStruct(<< Fld("a", TRef("u32")), Fld("b", TRef("fail")), Fld("c", TRef("vN")) >>),
         duo  |-> TStruct(<< Fld("a", TRef("v3")), Fld("b", TRef("vN")) >>) ]

CONSTANTS Len0,      \* length of a behaviour
          Modes      \* which of "r" (decoding), "w" (encoding), "h" (helpers) are exercised
OutDir == IOEnv.OUT
Shard  == IOEnv.SHARD

VARIABLES inp,     \* the input of the decoding stream
          pos,     \* next byte of it
          rerr,    \* the decoding stream has failed
          vals,    \* decoded values: sequence of [t, v]
          wr,      \* encoding streams: [b, err, exact]: exact is FALSE once a failed operation may have left bytes
          outs,    \* buffers returned by EncodeBuf
          srcs,    \* values that have been encoded: still unchanged?
          mode, h
vars == <<inp, pos, rerr, vals, wr, outs, srcs, mode, h>>

Inputs ==
  << \* 3 bytes, padded; 1; 2 bytes; 8 bytes that are no length
     <<0,0,0,3, 97,98,99,0, 0,0,0,1, 0,0,0,2, 120,121,0,0, 0,0,0,0, 0,0,0,0, 0,0,0,1, 1,2,3,4>>,
     \* claims more than there is
     <<0,0,0,4, 1,2,3,4, 0,0,0,1, 255,255,255,255, 0,0,0,0>>,
     \* ends within the padding
     <<0,0,0,0, 0,0,0,5, 104,101,108,108, 111,0,0>>,
     \* ends within a word
     <<0,0,0,1, 0,0,0,0, 0,0,0,1, 65,0>>,
     <<>>, <<0,0,0>> >>

\* A type has a decoder result that is not a matter of taste.
RECURSIVE Decs(_, _, _, _, _)
StreamDec(T, b, p) ==
  IF T.k = "fail" THEN Fail(FALSE, "user")
  ELSE IF T.k = "struct" THEN Decs(T.f, b, p, 1, <<>>)
  ELSE Dec(Env, T, b, p)
Decs(fs, b, p, i, acc) ==
  IF i > Len(fs) THEN Got(acc, p, FALSE)
  ELSE LET r == StreamDec(Env[fs[i].t.n], b, p) IN
       IF ~r.ok THEN r ELSE IF r.lax THEN Fail(TRUE, "") ELSE Decs(fs, b, r.p, i + 1, Append(acc, r.v))
RECURSIVE Encs(_, _, _, _)
StreamEnc(T, v) ==
  IF T.k = "fail" THEN Bad
  ELSE IF T.k = "struct" THEN Encs(T.f, v, 1, <<>>)
  ELSE Enc(Env, T, v, TRUE)
Encs(fs, v, i, acc) ==
  IF i > Len(fs) THEN Good(acc)
  ELSE LET r == StreamEnc(Env[fs[i].t.n], v[i]) IN IF ~r.ok THEN Bad ELSE Encs(fs, v, i + 1, acc \o r.b)

ReadTypes == {"bo", "i32", "u32", "i64", "u64", "a3", "a4", "a5", "vN", "v3", "sN", "s3", "duo", "bomb", "fail"}

\* Values that get encoded; some break a bound.
WriteVals ==
  { [t |-> "bo", v |-> TRUE], [t |-> "i32", v |-> <<255,255,255,254>>], [t |-> "u64", v |-> <<1,2,3,4,5,6,7,8>>],
    [t |-> "a3", v |-> <<7,8,9>>], [t |-> "vN", v |-> <<1,2,3,4,5>>], [t |-> "vN", v |-> <<>>],
    [t |-> "v3", v |-> <<5,6,7>>], [t |-> "v3", v |-> <<5,6,7,8>>],
    [t |-> "sN", v |-> <<104,105>>], [t |-> "s3", v |-> <<97,98,99,100>>],
    [t |-> "duo", v |-> << <<1>>, <<2,3>> >>], [t |-> "duo", v |-> << <<1,2,3,4>>, <<2,3>> >>],
    [t |-> "bomb", v |-> << <<0,0,0,9>>, <<>>, <<1,2>> >>]
  }
\* One whose encoding is likely to be in a larger buffer.
Large == [t |-> "vN", v |-> [i \in 1..253 |-> i]]

HasBytes(t) == t \in {"vN", "v3", "v5", "duo"}

Init ==
  /\ mode \in Modes
  /\ inp \in (IF mode = "r" THEN {Inputs[i] : i \in 1..Len(Inputs)} ELSE {<<>>})
  /\ pos = 1 /\ rerr = FALSE
  /\ vals = <<>> /\ outs = <<>> /\ srcs = <<>>
  /\ wr = << [b |-> <<>>, err |-> FALSE, exact |-> TRUE], [b |-> <<80, 82, 69>>, err |-> FALSE, exact |-> TRUE] >>
  /\ h = <<>>

Step(op) == h' = Append(h, op @@ [rerr |-> rerr', vals |-> vals', wr |-> wr', outs |-> outs'])

\* Decode one value of type t.
Read(t) ==
  /\ mode = "r"
  /\ LET r == StreamDec(Env[t], inp, pos) IN
     /\ rerr \/ ~r.lax
     /\ IF rerr THEN UNCHANGED <<pos, rerr, vals>>
        ELSE IF r.ok THEN pos' = r.p /\ rerr' = FALSE /\ vals' = Append(vals, [t |-> t, v |-> r.v])
        ELSE rerr' = TRUE /\ UNCHANGED <<pos, vals>>
     /\ UNCHANGED <<inp, mode, wr, outs, srcs>>
     /\ Step([op |-> "read", t |-> t, failed |-> rerr, why |-> r.why])
\* The user of the decoding stream reports an error of its own.
ReadSetError ==
  /\ mode = "r" /\ rerr' = TRUE
  /\ UNCHANGED <<inp, pos, vals, wr, outs, srcs, mode>>
  /\ Step([op |-> "rseterr"])
\* EncodingSetSize does nothing when decoding.
ReadSetSize ==
  /\ mode = "r" /\ UNCHANGED <<inp, pos, rerr, vals, wr, outs, srcs, mode>>
  /\ Step([op |-> "rsetsize"])

\* The user overwrites, or appends to, byte field j of decoded value i.
NFields(t) == IF t = "duo" THEN 2 ELSE 1
Ch(b) == [i \in 1..Len(b) |-> 238]
Changed(x, j, app) ==
  LET f(b) == IF app THEN b \o <<170, 187, 204, 221, 238>> ELSE Ch(b) IN
  IF x.t = "duo" THEN [x EXCEPT !.v[j] = f(x.v[j])] ELSE [x EXCEPT !.v = f(x.v)]
Touch(i, j, app) ==
  /\ i \in 1..Len(vals) /\ HasBytes(vals[i].t) /\ j <= NFields(vals[i].t)
  /\ vals' = [vals EXCEPT ![i] = Changed(vals[i], j, app)]
  /\ UNCHANGED <<inp, pos, rerr, wr, outs, srcs, mode>>
  /\ Step([op |-> IF app THEN "append" ELSE "overwrite", i |-> i, j |-> j])

\* Encode a value on stream k.
Write(k, x) ==
  /\ mode = "w"
  /\ LET r == StreamEnc(Env[x.t], x.v) IN
     IF wr[k].err THEN wr' = wr
     ELSE IF r.ok THEN wr' = [wr EXCEPT ![k].b = @ \o r.b]
     ELSE wr' = [wr EXCEPT ![k].err = TRUE, ![k].exact = FALSE]
  /\ srcs' = Append(srcs, TRUE)
  /\ UNCHANGED <<inp, pos, rerr, vals, outs, mode>>
  /\ Step([op |-> "write", k |-> k, t |-> x.t, v |-> x.v])
WriteSetError(k) ==
  /\ mode = "w" /\ wr' = [wr EXCEPT ![k].err = TRUE]
  /\ UNCHANGED <<inp, pos, rerr, vals, outs, srcs, mode>>
  /\ Step([op |-> "wseterr", k |-> k])
\* EncodingSetSize sets the size unless the stream has failed.
WriteSetSize(k, n) ==
  /\ mode = "w" /\ UNCHANGED <<inp, pos, rerr, vals, wr, outs, srcs, mode>>
  /\ Step([op |-> "wsetsize", k |-> k, n |-> n, set |-> ~wr[k].err])
\* The user changes a value that was encoded before.
Modify(i) ==
  /\ i \in 1..Len(srcs)
  /\ srcs[i] /\ srcs' = [srcs EXCEPT ![i] = FALSE]
  /\ UNCHANGED <<inp, pos, rerr, vals, wr, outs, mode>>
  /\ Step([op |-> "modify", i |-> i])

EncodeBuf(x) ==
  /\ mode = "h"
  /\ LET r == StreamEnc(Env[x.t], x.v) IN
     /\ outs' = IF r.ok THEN Append(outs, r.b) ELSE outs
     /\ srcs' = Append(srcs, TRUE)
     /\ UNCHANGED <<inp, pos, rerr, vals, wr, mode>>
     /\ Step([op |-> "encbuf", t |-> x.t, v |-> x.v, ok |-> r.ok])
\* The user overwrites, or appends to, a buffer that EncodeBuf returned.
TouchOut(i, app) ==
  /\ mode = "h" /\ i \in 1..Len(outs)
  /\ outs' = [outs EXCEPT ![i] = IF app THEN @ \o <<170, 187, 204, 221, 238>> ELSE Ch(@)]
  /\ UNCHANGED <<inp, pos, rerr, vals, wr, srcs, mode>>
  /\ Step([op |-> IF app THEN "outappend" ELSE "outoverwrite", i |-> i])
\* Decode a whole buffer; a prefix of it that decodes is enough.
DecodeBuf(t, b) ==
  /\ mode = "h"
  /\ LET r == StreamDec(Env[t], b, 1) IN
     /\ ~r.lax
     /\ vals' = IF r.ok THEN Append(vals, [t |-> t, v |-> r.v]) ELSE vals
     /\ UNCHANGED <<inp, pos, rerr, wr, outs, srcs, mode>>
     /\ Step([op |-> "decbuf", t |-> t, b |-> b, ok |-> r.ok, why |-> r.why])

Next ==
  /\ Len(h) < Len0
  /\ \/ \E t \in ReadTypes : Read(t)
     \/ ReadSetError \/ ReadSetSize
     \/ \E i \in 1..Len0, j \in 1..2, app \in BOOLEAN : Touch(i, j, app)
     \/ \E k \in 1..2 : WriteSetError(k) \/ WriteSetSize(k, 5) \/ \E x \in WriteVals : Write(k, x)
     \/ \E i \in 1..Len0 : Modify(i)
     \/ \E x \in WriteVals \cup {Large} : EncodeBuf(x)
     \/ \E i \in 1..Len0, app \in BOOLEAN : TouchOut(i, app)
     \/ \E t \in {"u32", "vN", "s3", "duo", "bomb"}, i \in 1..4 : DecodeBuf(t, Inputs[i])
Done ==
  /\ Len(h) = Len0
  /\ CSVWrite("%1$s", <<ToJson([mode |-> mode, inp |-> inp, pos |-> pos, h |-> h])>>, OutDir \o "/" \o mode \o Shard)
  /\ FALSE
Spec == Init /\ [][Next \/ Done]_vars

----------------------------------------------------------------------------
\* What the state machine promises (checked in every state).
Monotone == [][ /\ pos' >= pos
                /\ rerr => rerr' /\ pos' = pos /\ Len(vals') = Len(vals)
                /\ \A k \in 1..2 : wr[k].err => wr'[k].err /\ wr'[k].b = wr[k].b
                /\ \A k \in 1..2 : IsPrefix(wr[k].b, wr'[k].b)
                /\ Len(outs') >= Len(outs)
                /\ \A i \in 1..Len(outs) : outs'[i] # outs[i] =>
                     /\ Len(outs') = Len(outs) /\ \A m \in 1..Len(outs) : m # i => outs'[m] = outs[m]
                     /\ <<vals', wr', srcs'>> = <<vals, wr, srcs>>
                /\ \A i \in 1..Len(vals) : vals'[i] # vals[i] =>
                     /\ \A m \in 1..Len(vals) : m # i => vals'[m] = vals[m]
                     /\ <<pos', rerr', wr', outs'>> = <<pos, rerr, wr, outs>> ]_vars
WithinInput == pos <= Len(inp) + 1
=============================================================================
