------------------------------ MODULE XdrCases ------------------------------
(***************************************************************************)
(* One behaviour per type: the representative values of the type are taken *)
(* one by one, each checked against the semantics of Xdr.tla and written   *)
(* out for replay, together with mutations of its encoding and what each   *)
(* decodes to.  A state is a type and the values still to be taken.        *)
(***************************************************************************)
EXTENDS Xdr, Json, CSV, IOUtils

\* The input: names, the types to exercise, and env, a record of all types.
In == JsonDeserialize(IOEnv.TYPES)
Env   == In.env
Names == In.names
Depth == In.depth        \* how many optional links to follow
MutVals  == In.mutvals   \* how many values per type get mutated encodings
MutWords == In.mutwords  \* how many replacement words per position
Seed  == In.seed
OutFile == IOEnv.OUT

VARIABLES ty, vals, bads, n
vars == <<ty, vals, bads, n>>

Words == << <<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<0, 0, 0, 1>>, <<0, 16, 0, 0>>, <<127, 255, 255, 255>>,
            <<0, 0, 0, 2>>, <<128, 0, 0, 0>>, <<0, 0, 0, 7>>, <<0, 0, 1, 0>>, <<0, 0, 0, 9>>, <<1, 0, 0, 0>> >>

\* Encoding b with the word at 1-based word position p replaced by w.
Put(b, p, w) == [i \in 1..Len(b) |-> IF (i - 1) \div 4 = p - 1 THEN w[((i - 1) % 4) + 1] ELSE b[i]]

Mutation(t, b, p, w) ==
  LET m == TLCEval(Put(b, p, w))
      r == Dec(Env, TRef(t), m, 1)
  IN  [p |-> p, w |-> w, ok |-> r.ok, v |-> IF r.ok THEN r.v ELSE 0, n |-> r.p - 1, lax |-> r.lax, why |-> r.why,
       at |-> IF r.ok THEN 0 ELSE FailAt(Env, TRef(t), m)]
Mutations(t, b, k) ==
  LET np == Min2(Len(b) \div 4, 24) IN
  Flat([p \in 1..np |->
    [j \in 1..MutWords |-> Mutation(t, b, p, Rot(Words, p * 3 + k * 5 + j * 4 + Seed + Len(t)))]])

Index(t) == CHOOSE i \in 1..Len(Names) : Names[i] = t

\* One file per type: the steps of one type never run at the same time, and
\* long lines written by several workers to one file would tear.
Emit(r) == CSVWrite("%1$s", <<ToJson(r)>>, OutFile \o "/" \o r.ty)

Init == \E i \in 1..Len(Names) :
          /\ ty = Names[i]
          /\ vals = TLCEval(Reps(Env, TRef(ty), Depth))
          /\ bads = TLCEval(BadReps(Env, TRef(ty), Depth))
          /\ n = 0
TakeGood ==
  /\ vals # <<>>
  /\ LET b == TLCEval(Enc(Env, TRef(ty), Head(vals), TRUE).b) IN
     Emit([ty |-> ty, kind |-> "good", v |-> Head(vals), b |-> b, n |-> n,
           m |-> IF n < MutVals THEN Mutations(ty, b, n) ELSE <<>>])
  /\ vals' = Tail(vals) /\ n' = n + 1 /\ UNCHANGED <<ty, bads>>
TakeBad ==
  /\ vals = <<>> /\ bads # <<>>
  /\ LET b == TLCEval(Enc(Env, TRef(ty), Head(bads), FALSE).b) IN
     Emit([ty |-> ty, kind |-> "bad", v |-> Head(bads), b |-> b, n |-> n, at |-> FailAt(Env, TRef(ty), b)])
  /\ bads' = Tail(bads) /\ n' = n + 1 /\ UNCHANGED <<ty, vals>>
Next == TakeGood \/ TakeBad
Spec == Init /\ [][Next]_vars

RoundTrips == vals # <<>> => RoundTrip(Env, TRef(ty), Head(vals)) /\ Aligned(Env, TRef(ty), Head(vals))
PrefixesFail == vals # <<>> => PrefixFree(Env, TRef(ty), Head(vals))
BoundsFail == vals = <<>> /\ bads # <<>> => BoundsHold(Env, TRef(ty), Head(bads))
HasValues == n = 0 => vals # <<>>
=============================================================================
