------------------------------- MODULE XdrBig -------------------------------
(***************************************************************************)
(* Lengths too large to write the bytes out: for opaque data and strings   *)
(* of n bytes declared with maximum max, whether the length is accepted,   *)
(* the length word and the size of the encoding; and the same for claimed  *)
(* lengths that arrive with fewer bytes than they claim.                   *)
(***************************************************************************)
EXTENDS Xdr, Json, IOUtils

VARIABLE done

Sizes == <<9, 255, 256, 1023, 1024, 4095, 4096, 4097, 8192, 65534, 65535, 65536, 65537, 65539, 1048575, 1048576, 1048577, 1048579>>
\* A maximum: a number, -1 for none.  The largest there is is 2^32-1; here 2^31-1 stands in.
Maxes(n) == <<-1, n - 1, n, n + 1, 2147483647>>

Case(kind, n, max) ==
  [kind |-> kind, n |-> n, max |-> max, ok |-> max < 0 \/ n <= max, word |-> U32(n), pad |-> PadLen(n)]
\* A claim of the word w with only `have` bytes after it never decodes.
Claim(kind, w, max, have) ==
  [kind |-> kind, w |-> w, max |-> max, have |-> have]

Claims == << <<255, 255, 255, 255>>, <<255, 255, 255, 252>>, <<255, 255, 255, 253>>, <<128, 0, 0, 0>>, <<128, 0, 0, 1>>, <<127, 255, 255, 255>>,
             <<127, 255, 255, 252>>, <<64, 0, 0, 0>>, <<0, 255, 255, 255>>, <<0, 1, 0, 0>>, <<0, 0, 0, 9>> >>
Kinds == <<"opaque", "string">>

Cases == FlattenSeq([k \in 1..2 |-> FlattenSeq([i \in 1..Len(Sizes) |-> [j \in 1..5 |-> Case(Kinds[k], Sizes[i], Maxes(Sizes[i])[j])]])])
AllClaims == FlattenSeq([k \in 1..2 |-> FlattenSeq([i \in 1..Len(Claims) |->
               FlattenSeq([m \in 1..3 |-> [h \in 1..4 |-> Claim(Kinds[k], Claims[i], <<-1, 2147483647, 16777216>>[m], <<0, 3, 4, 8>>[h])]])])])

\* On lengths small enough to write out, the law is what Xdr.tla says.
Agrees ==
  \A n \in {9, 255, 256, 1023, 1024} : \A max \in {-1, n - 1, n, n + 1} :
    LET c == Case("opaque", n, max)
        e == Enc(<<>>, TOpaque(max), Rep(7, n), TRUE)
    IN  /\ e.ok = c.ok
        /\ e.ok => e.b = c.word \o Rep(7, n) \o Rep(0, c.pad)
ClaimsFail ==
  \A i \in 1..Len(AllClaims) : LET c == AllClaims[i]
                                   T == [k |-> c.kind, max |-> c.max]
                               IN  ~Dec(<<>>, T, c.w \o Rep(1, c.have), 1).ok

Init == done = FALSE
Next == ~done /\ done' = TRUE /\ JsonSerialize(IOEnv.OUT, [cases |-> Cases, claims |-> AllClaims])
Spec == Init /\ [][Next]_done
=============================================================================
