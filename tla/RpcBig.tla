------------------------------- MODULE RpcBig -------------------------------
(***************************************************************************)
(* Records too big to be written out: a call whose arguments are n bytes   *)
(* of variable-length opaque data, and a reply that returns them.  What    *)
(* the driver needs is what goes before and after the n bytes.             *)
(***************************************************************************)
EXTENDS RpcMsg, Json, IOUtils

Sizes == << 1020, 1024, 4092, 4096, 8192, 32768, 65532, 65535, 65536, 65537, 131072, 1000001, 1048576, 8388608, 16777216 - 100, 16777216, 16777221, 33554432 >>
CallHead(x) == EncCall(U32(x), U32(2), U32(7), U32(1), U32(0), NoAuth, NoAuth, <<>>)
ReplyHead(x) == EncMsg(Success(U32(x), NoAuth))
Case(i) == LET n == Sizes[i]
               total(h) == Len(h) + 4 + n + PadLen(n)
           IN  [n |-> n, pad |-> PadLen(n),
                call |-> Mark(total(CallHead(i))) \o CallHead(i) \o U32(n),
                reply |-> Mark(total(ReplyHead(i))) \o ReplyHead(i) \o U32(n)]
\* The mark delimits the record: checked by reading the mark back.
Unmark(m) == (((m[1] - 128) * 256 + m[2]) * 256 + m[3]) * 256 + m[4]
ASSUME \A i \in 1..Len(Sizes) : Unmark(Case(i).call) = Len(Case(i).call) - 4 + Sizes[i] + Case(i).pad

\* Huge ones: the data is not returned, but its length is (and as a reply, the data is).
\* The last record has the greatest length that is a multiple of four.
HugeSizes == << 268435456 + 5, 1073741824 + 1, 2147483644 - Len(CallHead(0)) - 4 >>
HugeCase(i) == LET n == HugeSizes[i]
                   total(h) == Len(h) + 4 + n + PadLen(n)
               IN  [n |-> n, pad |-> PadLen(n),
                    call |-> Mark(total(CallHead(i))) \o CallHead(i) \o U32(n),
                    answer |-> Record(ReplyHead(i) \o U32(n)),
                    reply |-> Mark(total(ReplyHead(i))) \o ReplyHead(i) \o U32(n)]
ASSUME LET k == HugeCase(3) IN k.pad = 0 /\ SubSeq(k.call, 1, 4) = <<255, 255, 255, 252>>

\* A long history: its calls have xids that all differ.  Every Every-th is
\* answered with the reply to the call Back[j] calls earlier, and fails.
Long == [calls |-> 140000, every |-> 997, back |-> <<1, 2, 256, 65536>>]

\* Claims that no stream makes good.
Claims == << [mark |-> <<255, 255, 255, 255>>, acts |-> FALSE], [mark |-> <<192, 0, 0, 0>>, acts |-> FALSE], [mark |-> <<129, 0, 0, 44>>, acts |-> FALSE],
             [mark |-> <<127, 255, 255, 255>>, acts |-> FALSE], [mark |-> <<1, 0, 0, 44>>, acts |-> FALSE], [mark |-> <<128, 1, 0, 44>>, acts |-> FALSE] >>
ASSUME JsonSerialize(IOEnv.OUT, [cases |-> [i \in 1..Len(Sizes) |-> Case(i)],
                                 huge |-> [i \in 1..Len(HugeSizes) |-> HugeCase(i)],
                                 claims |-> [i \in 1..Len(Claims) |-> Claims[i].mark \o CallHead(99) \o <<0, 0, 0, 0>>],
                                 long |-> Long,
                                 zero |-> [call |-> Record(CallHead(50) \o <<0, 0, 0, 0>>), reply |-> Record(ReplyHead(50) \o <<0, 0, 0, 0>>)]])
VARIABLE x
Init == x = 0
Next == x' = x
Spec == Init /\ [][Next]_x
=============================================================================
