------------------------------ MODULE E2ETable ------------------------------
(* Writes out the values of E2EVals. *)
EXTENDS E2EVals
ASSUME JsonSerialize(IOEnv.OUT, [k \in 1..Len(AllProcs) |->
         [args |-> [i \in 1..Len(Args(k)) |-> [v |-> Args(k)[i], b |-> EncOf(ProcAt(k).a, Args(k)[i], TRUE)]],
          results |-> Results(k), cuts |-> Cuts(k), badargs |-> BadArgs(k), badresults |-> BadResults(k)]])
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
