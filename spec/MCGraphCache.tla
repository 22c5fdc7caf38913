---------------------------- MODULE MCGraphCache ----------------------------
EXTENDS GraphCache
N(n, ns, r, w) == [name |-> n, ns |-> ns, r |-> r, w |-> w]
UpdNone == {}
UpdSmall == {<<>>, <<N("n1", "/", <<"g1">>, <<>>)>>, <<N("n2", "/", <<>>, <<"g1">>)>>,
             <<N("n1", "/", <<>>, <<"g2">>), N("n1", "/", <<"g2">>, <<"g1">>)>>}
=============================================================================
