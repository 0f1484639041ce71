-------------------------------- MODULE Xdr --------------------------------
(***************************************************************************)
(* The XDR language (RFC 4506) as a value and wire semantics.              *)
(*                                                                         *)
(* A type is a record with a field k:                                      *)
(*   int uint enum(items) : 4 bytes      hyper uhyper : 8 bytes            *)
(*   bool, void                                                            *)
(*   fixed(n)            opaque x[n]                                       *)
(*   opaque(max), string(max)   max = -1: unbounded                        *)
(*   array(n,t), varray(max,t)                                             *)
(*   opt(t)              optional data                                     *)
(*   struct(f)           f: sequence of [n: name, t: type]                 *)
(*   union(d,arms,def)   d: [n,t]; arms: sequence of [cs,n,t];             *)
(*                       def: <<>> or <<[n,t]>>                            *)
(*   ref(n)              a named type, looked up in an environment         *)
(*   fussy               4 bytes; a user-written codec that sets an error  *)
(*                       on the value 13                                   *)
(*                                                                         *)
(* A value is: a byte sequence (integers, big-endian; opaque; string), a   *)
(* boolean, a sequence (arrays; structs, positionally; optional data, of   *)
(* length 0 or 1) or [d: discriminant, a: <<arm value>> or <<>>].          *)
(*                                                                         *)
(* Enc(env,T,v,chk) is [ok,b].  Dec(env,T,b,p) is [ok,v,p,lax,why]; p is  *)
(* the index of the next byte; lax is TRUE if the bytes are not canonical in a *)
(* way that decoders may either tolerate or reject (booleans other than    *)
(* 0/1, enum values that are not declared, discriminants without an arm,   *)
(* padding that is not zero): the code documents that it does not validate *)
(* these.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

TInt    == [k |-> "int"]
TUint   == [k |-> "uint"]
THyper  == [k |-> "hyper"]
TUhyper == [k |-> "uhyper"]
TBool   == [k |-> "bool"]
TVoid   == [k |-> "void"]
TEnum(items) == [k |-> "enum", items |-> items]     \* items: <<[n, v]>>, v: 4 bytes
TFixed(n)    == [k |-> "fixed", n |-> n]
TOpaque(max) == [k |-> "opaque", max |-> max]
TString(max) == [k |-> "string", max |-> max]
TArray(n, t) == [k |-> "array", n |-> n, t |-> t]
TVarray(max, t) == [k |-> "varray", max |-> max, t |-> t]
TOpt(t)      == [k |-> "opt", t |-> t]
TStruct(f)   == [k |-> "struct", f |-> f]
TUnion(d, arms, def) == [k |-> "union", d |-> d, arms |-> arms, def |-> def]
TRef(n)      == [k |-> "ref", n |-> n]
Fld(n, t)    == [n |-> n, t |-> t]
Arm(cs, n, t) == [cs |-> cs, n |-> n, t |-> t]

Huge == 2147483647   \* stands for every length of 2^31 or more

\* n in 0..2^31-1
U32(n) == << (n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>
U64(n) == <<0, 0, 0, 0>> \o U32(n)
FromU32(b) == IF b[1] >= 128 THEN Huge
              ELSE ((b[1] * 256 + b[2]) * 256 + b[3]) * 256 + b[4]

PadLen(n) == (4 - (n % 4)) % 4
Pad(n)    == [i \in 1..PadLen(n) |-> 0]
Rep(b, n) == [i \in 1..n |-> b]

Thirteen == <<0, 0, 0, 13>>
IsWord(T)  == T.k \in {"int", "uint", "enum"}
IsDword(T) == T.k \in {"hyper", "uhyper"}
TooLong(T, n) == T.max >= 0 /\ n > T.max

\* The arm of union T selected by discriminant value d: 0 if none.
ArmIdx(T, d) ==
  LET S == {i \in 1..Len(T.arms) : \E j \in 1..Len(T.arms[i].cs) : T.arms[i].cs[j] = d}
  IN  IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
\* Type of the selected arm (void if there is none at all).
ArmType(T, d) ==
  LET i == ArmIdx(T, d)
  IN  IF i > 0 THEN T.arms[i].t ELSE IF T.def # <<>> THEN T.def[1].t ELSE TVoid
HasArm(T, d) == ArmIdx(T, d) > 0 \/ T.def # <<>>

----------------------------------------------------------------------------
\* Encoding

Good(b) == [ok |-> TRUE, b |-> b]
Bad     == [ok |-> FALSE, b |-> <<>>]

RECURSIVE Enc(_, _, _, _)
RECURSIVE EncAll(_, _, _, _, _)    \* the types ts[i..] and values vs[i..]
RECURSIVE EncElems(_, _, _, _, _)  \* the elements vs[i..], all of type t

EncAll(env, fs, vs, i, chk) ==
  IF i > Len(fs) THEN Good(<<>>)
  ELSE LET h == Enc(env, fs[i].t, vs[i], chk) IN
       IF ~h.ok THEN Bad
       ELSE LET r == EncAll(env, fs, vs, i + 1, chk) IN
            IF ~r.ok THEN Bad ELSE Good(h.b \o r.b)

EncElems(env, t, vs, i, chk) ==
  IF i > Len(vs) THEN Good(<<>>)
  ELSE LET h == Enc(env, t, vs[i], chk) IN
       IF ~h.ok THEN Bad
       ELSE LET r == EncElems(env, t, vs, i + 1, chk) IN
            IF ~r.ok THEN Bad ELSE Good(h.b \o r.b)

Enc(env, T, v, chk) ==
  CASE IsWord(T) \/ IsDword(T) -> Good(v)
    [] T.k = "fussy" -> IF chk /\ v = Thirteen THEN Bad ELSE Good(v)
    [] T.k = "bool"  -> Good(IF v THEN <<0, 0, 0, 1>> ELSE <<0, 0, 0, 0>>)
    [] T.k = "void"  -> Good(<<>>)
    [] T.k = "fixed" -> Good(v \o Pad(T.n))
    [] T.k \in {"opaque", "string"} ->
         IF chk /\ TooLong(T, Len(v)) THEN Bad
         ELSE Good(U32(Len(v)) \o v \o Pad(Len(v)))
    [] T.k = "array" -> EncElems(env, T.t, v, 1, chk)
    [] T.k = "varray" ->
         IF chk /\ TooLong(T, Len(v)) THEN Bad
         ELSE LET r == EncElems(env, T.t, v, 1, chk) IN
              IF r.ok THEN Good(U32(Len(v)) \o r.b) ELSE Bad
    [] T.k = "opt" ->
         IF v = <<>> THEN Good(<<0, 0, 0, 0>>)
         ELSE LET r == Enc(env, T.t, v[1], chk) IN
              IF r.ok THEN Good(<<0, 0, 0, 1>> \o r.b) ELSE Bad
    [] T.k = "struct" -> EncAll(env, T.f, v, 1, chk)
    [] T.k = "union" ->
         LET d == Enc(env, T.d.t, v.d, chk)
             t == ArmType(T, v.d)
             r == IF t.k = "void" THEN Good(<<>>) ELSE Enc(env, t, v.a[1], chk)
         IN  IF d.ok /\ r.ok THEN Good(d.b \o r.b) ELSE Bad
    [] T.k = "ref" -> Enc(env, env[T.n], v, chk)

----------------------------------------------------------------------------
\* Decoding

Got(v, p, lax) == [ok |-> TRUE, v |-> v, p |-> p, lax |-> lax, why |-> ""]
Fail(lax, why) == [ok |-> FALSE, v |-> <<>>, p |-> 0, lax |-> lax, why |-> why]
Short == Fail(FALSE, "short")    \* the bytes end too early
Over  == Fail(FALSE, "bound")    \* a length exceeds its declared maximum
Fails(lax, f) == Fail(lax \/ f.lax, f.why)

Have(b, p, n) == n <= Len(b) - p + 1
PadOk(b, p, n) == \A i \in p..(p + PadLen(n) - 1) : b[i] = 0

RECURSIVE Dec(_, _, _, _)
RECURSIVE DecAll(_, _, _, _, _, _, _)
RECURSIVE DecElems(_, _, _, _, _, _, _)

DecAll(env, fs, b, p, i, acc, lax) ==
  IF i > Len(fs) THEN Got(acc, p, lax)
  ELSE LET h == Dec(env, fs[i].t, b, p) IN
       IF ~h.ok THEN Fails(lax, h)
       ELSE DecAll(env, fs, b, h.p, i + 1, Append(acc, h.v), lax \/ h.lax)

DecElems(env, t, b, p, n, acc, lax) ==
  IF n = 0 THEN Got(acc, p, lax)
  ELSE LET h == Dec(env, t, b, p) IN
       IF ~h.ok THEN Fails(lax, h)
       ELSE DecElems(env, t, b, h.p, n - 1, Append(acc, h.v), lax \/ h.lax)

Dec(env, T, b, p) ==
  CASE IsWord(T) ->
         IF ~Have(b, p, 4) THEN Short
         ELSE LET v == SubSeq(b, p, p + 3) IN
              Got(v, p + 4, T.k = "enum" /\ \A i \in 1..Len(T.items) : T.items[i].v # v)
    [] T.k = "fussy" ->
         IF ~Have(b, p, 4) THEN Short
         ELSE LET v == SubSeq(b, p, p + 3) IN
              IF v = Thirteen THEN Fail(FALSE, "user") ELSE Got(v, p + 4, FALSE)
    [] IsDword(T) ->
         IF ~Have(b, p, 8) THEN Short ELSE Got(SubSeq(b, p, p + 7), p + 8, FALSE)
    [] T.k = "bool" ->
         IF ~Have(b, p, 4) THEN Short
         ELSE LET w == SubSeq(b, p, p + 3) IN
              Got(w # <<0, 0, 0, 0>>, p + 4, w \notin {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>})
    [] T.k = "void" -> Got(<<>>, p, FALSE)
    [] T.k = "fixed" ->
         IF ~Have(b, p, T.n + PadLen(T.n)) THEN Short
         ELSE Got(SubSeq(b, p, p + T.n - 1), p + T.n + PadLen(T.n), ~PadOk(b, p + T.n, T.n))
    [] T.k \in {"opaque", "string"} ->
         IF ~Have(b, p, 4) THEN Short
         ELSE LET n == FromU32(SubSeq(b, p, p + 3))
                  q == p + 4
              IN  IF TooLong(T, n) THEN Over
                  ELSE IF n = Huge \/ ~Have(b, q, n) THEN Short
                  ELSE IF ~Have(b, q, n + PadLen(n)) THEN Short
                  ELSE Got(SubSeq(b, q, q + n - 1), q + n + PadLen(n), ~PadOk(b, q + n, n))
    [] T.k = "array" -> DecElems(env, T.t, b, p, T.n, <<>>, FALSE)
    [] T.k = "varray" ->
         IF ~Have(b, p, 4) THEN Short
         ELSE LET n == FromU32(SubSeq(b, p, p + 3)) IN
              IF TooLong(T, n) THEN Over
              ELSE DecElems(env, T.t, b, p + 4, n, <<>>, FALSE)
    [] T.k = "opt" ->
         LET h == Dec(env, TBool, b, p) IN
         IF ~h.ok THEN h
         ELSE IF ~h.v THEN Got(<<>>, h.p, h.lax)
         ELSE LET r == Dec(env, T.t, b, h.p) IN
              IF ~r.ok THEN Fails(h.lax, r) ELSE Got(<<r.v>>, r.p, h.lax \/ r.lax)
    [] T.k = "struct" -> DecAll(env, T.f, b, p, 1, <<>>, FALSE)
    [] T.k = "union" ->
         LET d == Dec(env, T.d.t, b, p) IN
         IF ~d.ok THEN d
         ELSE LET t == ArmType(T, d.v)
                  lax == d.lax \/ ~HasArm(T, d.v)
              IN  IF t.k = "void" THEN Got([d |-> d.v, a |-> <<>>], d.p, lax)
                  ELSE LET r == Dec(env, t, b, d.p) IN
                       IF ~r.ok THEN Fails(lax, r)
                       ELSE Got([d |-> d.v, a |-> <<r.v>>], r.p, lax \/ r.lax)
    [] T.k = "ref" -> Dec(env, env[T.n], b, p)


\* The first component of struct T that does not decode, 0 if T is no struct.
RECURSIVE FailAtFrom(_, _, _, _, _)
FailAtFrom(env, fs, b, p, i) ==
  IF i > Len(fs) THEN 0
  ELSE LET h == Dec(env, fs[i].t, b, p) IN
       IF h.ok THEN FailAtFrom(env, fs, b, h.p, i + 1) ELSE i
RECURSIVE FailAt(_, _, _)
FailAt(env, T, b) == CASE T.k = "struct" -> FailAtFrom(env, T.f, b, 1, 1)
                       [] T.k = "ref" -> FailAt(env, env[T.n], b)
                       [] OTHER -> 0

----------------------------------------------------------------------------
\* Representative values of a type, as a sequence.  Every length residue mod
\* 4, every boundary length, every integer extreme, every union arm and every
\* case of it occurs in some representative.

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RepWords == << <<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<255, 255, 255, 255>>, <<127, 255, 255, 255>>,
               <<128, 0, 0, 0>>, <<1, 2, 3, 4>>, <<0, 0, 128, 0>>, <<250, 206, 176, 12>> >>
RepDwords == << <<0, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 1>>,
                <<255, 255, 255, 255, 255, 255, 255, 255>>, <<127, 255, 255, 255, 255, 255, 255, 255>>,
                <<128, 0, 0, 0, 0, 0, 0, 0>>, <<1, 2, 3, 4, 5, 6, 7, 8>>,
                <<0, 0, 0, 0, 255, 0, 255, 0>>, <<0, 0, 0, 1, 0, 0, 0, 0>> >>

\* A byte pattern of length n that no shift or truncation maps to itself.
Pat(n, s) == [i \in 1..n |-> (i * 37 + s * 101 + (i \div 7)) % 256]

\* Lengths tried for data of at most max elements (-1: no maximum).
BaseLens == <<3, 0, 1, 2, 4, 5, 7, 8>>
MaxTryLen == 1200   \* bounds above this are not exercised by actual values
Lens(max) ==
  LET s == SelectSeq(BaseLens, LAMBDA n : max < 0 \/ n <= max)
  IN  IF max > 8 /\ max <= MaxTryLen THEN s \o <<max, max - 1>>
      ELSE IF max < 0 THEN s \o <<33>> ELSE s

\* n bytes that are fewer characters: UTF-8 sequences of three bytes, then of two, then of one.
Utf(n) == SubSeq(FlattenSeq([i \in 1..(n \div 3) |-> <<226, 130, 172>>]) \o (IF n % 3 = 2 THEN <<195, 169>> ELSE IF n % 3 = 1 THEN <<97>> ELSE <<>>), 1, n)

Rot(s, j) == s[((j - 1) % Len(s)) + 1]    \* j-th element, cyclically

RECURSIVE Reps(_, _, _)
\* The first representative, or any other of index j taken cyclically, for a
\* sequence of types at once: position i takes index j + i - 1 when shifted.
RepsStruct(env, fs, d) ==
  LET r == TLCEval([i \in 1..Len(fs) |-> Reps(env, fs[i].t, d)])
      m == IF fs = <<>> THEN 1
           ELSE LET L == {Len(r[i]) : i \in 1..Len(fs)} IN CHOOSE x \in L : \A y \in L : x >= y
  IN  TLCEval([j \in 1..m |-> [i \in 1..Len(fs) |-> Rot(r[i], j + i - 1)]])

\* Discriminant values that select no case of union T.
Others(env, T) ==
  LET D == IF T.d.t.k = "ref" THEN env[T.d.t.n] ELSE T.d.t
      D2 == IF D.k = "ref" THEN env[D.n] ELSE D
      cand == CASE D2.k = "enum" -> [i \in 1..Len(D2.items) |-> D2.items[i].v]
                [] D2.k = "bool" -> <<FALSE, TRUE>>
                [] OTHER -> << <<0, 0, 0, 77>>, <<255, 255, 255, 254>> >>
  IN  SelectSeq(cand, LAMBDA d : ArmIdx(T, d) = 0)

\* TLCEval makes TLC evaluate a sequence once and not once per access.
Flat(ss) == FlattenSeq(TLCEval(ss))

Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))

RepsUnion(env, T, d) ==
  LET armvals(t) == IF t.k = "void" THEN << <<>> >>
                    ELSE LET r == TLCEval(Take(Reps(env, t, d), 5)) IN [i \in 1..Len(r) |-> <<r[i]>>]
      mk(dv, as) == [i \in 1..Len(as) |-> [d |-> dv, a |-> as[i]]]
      ofArm(a)   == Flat([c \in 1..Len(a.cs) |-> mk(a.cs[c], armvals(a.t))])
      arms == Flat([i \in 1..Len(T.arms) |-> ofArm(T.arms[i])])
      oth  == IF T.def = <<>> THEN <<>> ELSE Take(Others(env, T), 3)
      def  == Flat([i \in 1..Len(oth) |-> mk(oth[i], armvals(T.def[1].t))])
  IN  arms \o def

Reps(env, T, d) ==
  CASE T.k \in {"int", "uint", "fussy"} -> RepWords
    [] T.k = "enum" -> [i \in 1..Len(T.items) |-> T.items[i].v]
    [] IsDword(T) -> RepDwords
    [] T.k = "bool" -> <<TRUE, FALSE>>
    [] T.k = "void" -> << <<>> >>
    [] T.k = "fixed" -> <<Pat(T.n, 1), Rep(255, T.n), Rep(0, T.n)>>
    [] T.k = "opaque" ->
         LET l == Lens(T.max) IN [i \in 1..Len(l) |-> Pat(l[i], i)] \o <<Rep(0, l[1])>>
    [] T.k = "string" ->
         LET l == Lens(T.max) IN [i \in 1..Len(l) |-> Pat(l[i], i)] \o <<Rep(0, l[1]), Utf(l[Len(l)]), Utf(l[1])>>
    [] T.k = "array" ->
         LET r == TLCEval(Reps(env, T.t, d)) IN
         [j \in 1..Min2(3, Len(r)) |-> [i \in 1..T.n |-> Rot(r, i + j - 1)]]
    [] T.k = "varray" ->
         LET r == TLCEval(Reps(env, T.t, d))
             l == SelectSeq(<<2, 0, 1, 3, 5>>, LAMBDA n : T.max < 0 \/ n <= T.max)
                  \o (IF T.max > 5 /\ T.max <= 100 THEN <<T.max>> ELSE <<>>)
                  \o (IF T.max = 4 THEN <<4>> ELSE <<>>)
         IN  [j \in 1..Len(l) |-> [i \in 1..l[j] |-> Rot(r, i + j - 1)]]
    [] T.k = "opt" ->
         IF d = 0 THEN << <<>> >>
         ELSE LET r == TLCEval(Reps(env, T.t, d - 1)) IN
              << <<r[1]>>, <<>> >> \o [j \in 1..(Min2(4, Len(r)) - 1) |-> <<r[j + 1]>>]
    [] T.k = "struct" -> RepsStruct(env, T.f, d)
    [] T.k = "union" -> RepsUnion(env, T, d)
    [] T.k = "ref" -> Reps(env, env[T.n], d)

----------------------------------------------------------------------------
\* Values that violate exactly one declared bound, everything else being a
\* representative.
RECURSIVE BadReps(_, _, _)
BadReps(env, T, d) ==
  CASE T.k \in {"opaque", "string"} ->
         IF T.max < 0 \/ T.max > MaxTryLen THEN <<>>
         ELSE <<Pat(T.max + 1, 1), Pat(T.max + 4, 2), Pat(T.max + 7, 3)>>
              \o (IF T.k = "string" THEN <<Utf(T.max + 1), Utf(2 * T.max + 1)>> ELSE <<Rep(0, T.max + 1)>>)
    [] T.k = "array" ->
         LET e == TLCEval(BadReps(env, T.t, d))
             g == TLCEval(Reps(env, T.t, d)[1])
         IN  IF e = <<>> \/ T.n = 0 THEN <<>>
             ELSE << [i \in 1..T.n |-> IF i = T.n THEN e[1] ELSE g] >>
    [] T.k = "varray" ->
         LET e == TLCEval(BadReps(env, T.t, d))
             g == TLCEval(Reps(env, T.t, d))
         IN  (IF T.max < 0 \/ T.max > MaxTryLen THEN <<>>
              ELSE << [i \in 1..(T.max + 1) |-> Rot(g, i)], [i \in 1..(T.max + 3) |-> g[1]] >>)
             \o (IF e = <<>> \/ T.max = 0 THEN <<>> ELSE << <<e[1]>> >>)
    [] T.k = "opt" ->
         IF d = 0 THEN <<>>
         ELSE LET e == TLCEval(BadReps(env, T.t, d - 1)) IN [i \in 1..Len(e) |-> <<e[i]>>]
    [] T.k = "struct" ->
         LET g == TLCEval(Reps(env, T, d)[1])
             of(i) == LET e == TLCEval(BadReps(env, T.f[i].t, d))
                      IN  [j \in 1..Len(e) |-> [g EXCEPT ![i] = e[j]]]
         IN  Flat([i \in 1..Len(T.f) |-> of(i)])
    [] T.k = "union" ->
         LET of(dv, t) == LET e == TLCEval(BadReps(env, t, d))
                          IN  [j \in 1..Len(e) |-> [d |-> dv, a |-> <<e[j]>>]]
             oth == IF T.def = <<>> THEN <<>> ELSE Take(Others(env, T), 1)
         IN  Flat([i \in 1..Len(T.arms) |-> of(T.arms[i].cs[1], T.arms[i].t)])
             \o (IF oth = <<>> THEN <<>> ELSE of(oth[1], T.def[1].t))
    [] T.k = "ref" -> BadReps(env, env[T.n], d)
    [] T.k = "fussy" -> <<Thirteen>>
    [] OTHER -> <<>>

----------------------------------------------------------------------------
\* What the specification itself promises of every type and value; checked by
\* TLC on every value that is replayed.

RoundTrip(env, T, v) ==
  LET e == Enc(env, T, v, TRUE)
      r == Dec(env, T, e.b \o <<222, 173>>, 1)
  IN  e.ok /\ r.ok /\ ~r.lax /\ r.v = v /\ r.p = Len(e.b) + 1
Aligned(env, T, v) == Len(Enc(env, T, v, TRUE).b) % 4 = 0
\* Every strict prefix fails to decode.
PrefixFree(env, T, v) ==
  LET b == Enc(env, T, v, TRUE).b
  IN  \A n \in 0..(Len(b) - 1) : ~Dec(env, T, SubSeq(b, 1, n), 1).ok
BoundsHold(env, T, v) ==
  /\ ~Enc(env, T, v, TRUE).ok
  /\ ~Dec(env, T, Enc(env, T, v, FALSE).b, 1).ok
=============================================================================
