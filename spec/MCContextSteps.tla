--------------------------- MODULE MCContextSteps ---------------------------
EXTENDS ContextSteps
E(w, k, a, b) == [what |-> w, name |-> k, ns |-> "/", gw |-> a, gr |-> b]
Ctx(e, ok) == [k |-> "ctx", e |-> e, ok |-> ok]
WorksAll ==
  {Ctx(E(w, "n1", "cw", "cr"), ok) : w \in {"add_cli", "rm_cli"}, ok \in BOOLEAN}
  \cup {Ctx(E("add_pub", "n1", "g", "-"), ok) : ok \in BOOLEAN}
  \cup {Ctx(E("add_node", "n1", "-", "-"), FALSE), Ctx(E("add_node", "n2", "-", "-"), TRUE),
        Ctx(E("rm_node", "n2", "-", "-"), TRUE)}
  \cup {[k |-> "disc"], [k |-> "query"]}
WorksSmall ==
  {Ctx(E("add_cli", "n1", "cw", "cr"), TRUE), Ctx(E("add_srv", "n1", "cw", "cr"), FALSE),
   Ctx(E("add_pub", "n1", "g", "-"), TRUE), [k |-> "disc"], [k |-> "query"]}
=============================================================================
