------------------------------ MODULE MCSystem ------------------------------
EXTENDS System
CtxsAB == {"a", "b"}
Pub(p, g, t) == [p |-> p, k |-> "pub", w |-> g, r |-> "", t |-> t]
Sub(p, g, t) == [p |-> p, k |-> "sub", w |-> "", r |-> g, t |-> t]
Cli(p, g, h, t) == [p |-> p, k |-> "cli", w |-> g, r |-> h, t |-> t]
One == {Pub("a", "g1", "t1")}
Two == {Pub("a", "g1", "t1"), Sub("a", "g2", "t1")}
Same == {Pub("a", "g1", "t1"), Sub("a", "g1", "t1")}   \* writer and reader ids are separate
Client == {Cli("a", "g1", "g2", "t1")}
Both == {Pub("a", "g1", "t1"), Pub("b", "g2", "t1")}
=============================================================================
