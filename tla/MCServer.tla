------------------------------ MODULE MCServer ------------------------------
EXTENDS RpcServer
Entry(conns, sizes, kinds) == [conn : conns, size : sizes, kind : kinds]
Canon(p) == \A i \in 1..Len(p) : p[i].conn <= 1 + Cardinality({p[j].conn : j \in 1..(i - 1)})
MCPlans == {p \in [1..3 -> Entry(1..3, 1..2, {"echo", "err"})] : Canon(p)}
           \cup {p \in [1..2 -> Entry(1..2, 1..2, {"echo", "err", "fail", "none"})] : Canon(p)}
NoCalls == {}
First == {1}
=============================================================================
