------------------------------ MODULE RemoteMC -------------------------------
EXTENDS Remote
MCPres == {<<>>, <<"meta">>, <<"a">>}
MCSuffixes == {Nil, <<>>, <<"sync">>, <<"a">>, <<"*">>, <<"a", "b">>}
MCKinds == {"none", "bool", "double"}
TPres == MCPres \cup {<<"a", "b">>}
TSuffixes == MCSuffixes \cup {<<"meta">>, <<"b">>, <<"*", "b">>}
TKinds == MCKinds \cup {"int"}
GPres == MCPres
GSuffixes == MCSuffixes \cup {<<"meta">>, <<"*", "b">>, <<"meta", "sync">>}
GKinds == TKinds
=============================================================================
