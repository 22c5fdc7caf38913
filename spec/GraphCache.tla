----------------------------- MODULE GraphCache -----------------------------
(* State machine of one graph cache: every public update, over bounded sets  *)
(* of ids, topics, participants and node names.  TLC explores it completely  *)
(* and checks the statements of the cache properties, written here without   *)
(* reference to how GraphCacheOps computes them.  The transitions it visits  *)
(* are also printed (Emit) and replayed one by one in the real code.         *)
EXTENDS GraphCacheOps, Json

CONSTANTS Gids,       \* endpoint ids
          Topics, Parts, Enclaves, Names, Nss,
          MaxNodes,   \* nodes per participant
          MaxGids,    \* ids per side of a node
          Kinds,      \* operations enabled in this configuration
          UpdNodes,   \* node sequences that announcements may carry
          EmitOn

VARIABLES c,    \* the cache
          act   \* last operation and its outcome (hidden by View)
vars == <<c, act>>
View == c

Q0 == "q"
Ops ==
  {[op |-> "add", side |-> s, via |-> "direct", gid |-> g, topic |-> t, type |-> "T",
    hash |-> "h", part |-> p, qos |-> Q0] :
      s \in {"r", "w"}, g \in Gids, t \in Topics, p \in Parts}
  \cup {[op |-> "rm", side |-> s, gid |-> g] : s \in {"r", "w"}, g \in Gids}
  \cup {[op |-> "addp", part |-> p, enclave |-> x] : p \in Parts, x \in Enclaves}
  \cup {[op |-> "rmp", part |-> p] : p \in Parts}
  \cup {[op |-> "upd", msg |-> [gid |-> p, nodes |-> n]] : p \in Parts, n \in UpdNodes}
  \cup {[op |-> k, part |-> p, name |-> n, ns |-> s] :
          k \in {"addn", "rmn"}, p \in Parts, n \in Names, s \in Nss}
  \cup {[op |-> k, gid |-> g, part |-> p, name |-> n, ns |-> s] :
          k \in {"asw", "dsw", "asr", "dsr"}, g \in Gids, p \in Parts, n \in Names, s \in Nss}

InBounds(x) ==
  \A p \in DOMAIN x.p :
    /\ Len(x.p[p].nodes) <= MaxNodes
    /\ \A i \in 1..Len(x.p[p].nodes) :
         Len(x.p[p].nodes[i].r) <= MaxGids /\ Len(x.p[p].nodes[i].w) <= MaxGids

Init == c = EmptyCache /\ act = [op |-> "init"]
Do(e) ==
  /\ e.op \in Kinds
  /\ Defined(c, e)
  /\ LET a == Apply(c, e)
     IN /\ InBounds(a.c)
        /\ c' = a.c
        /\ act' = [e |-> e, ret |-> a.ret, chg |-> a.chg]
Next == \E e \in Ops : Do(e)
Spec == Init /\ [][Next]_vars

Emit == EmitOn => PrintT("EDGE" \o ToJson([i |-> (c = EmptyCache), a |-> act'.e, s |-> c, t |-> c']))

(* ------------------------------ properties ------------------------------ *)
E == act'.e
Eps(x, s) == DOMAIN Side(x, s)

(* C01: an add makes exactly its id present, a remove exactly its id absent; *)
(* first data wins; ids of the other side never move; result tells the truth *)
DiscoveryExact ==
  [][ \A s \in {"r", "w"} :
        LET o == IF s = "r" THEN "w" ELSE "r" IN
        /\ (E.op = "add" /\ E.side = s) =>
             /\ Eps(c', s) = Eps(c, s) \cup {E.gid}
             /\ act'.ret = (E.gid \notin Eps(c, s))
             /\ \A g \in Eps(c, s) : Side(c', s)[g] = Side(c, s)[g]
             /\ Side(c', o) = Side(c, o) /\ c'.p = c.p
        /\ (E.op = "rm" /\ E.side = s) =>
             /\ Eps(c', s) = Eps(c, s) \ {E.gid}
             /\ act'.ret = (E.gid \in Eps(c, s))
             /\ \A g \in Eps(c', s) : Side(c', s)[g] = Side(c, s)[g]
             /\ Side(c', o) = Side(c, o) /\ c'.p = c.p
        /\ E.op \notin {"add", "rm"} => Side(c', s) = Side(c, s) ]_vars

(* C02: only the participant an operation names changes; enclaves change only *)
(* by registration, node lists survive registration                           *)
Target(e) == IF e.op = "upd" THEN e.msg.gid ELSE e.part
PartOps == {"addp", "rmp", "upd", "addn", "rmn", "asw", "dsw", "asr", "dsr"}
ParticipantsExact ==
  [][ /\ E.op \in PartOps =>
           /\ \A p \in (DOMAIN c.p \cup DOMAIN c'.p) \ {Target(E)} :
                p \in DOMAIN c.p /\ p \in DOMAIN c'.p /\ c'.p[p] = c.p[p]
           /\ E.op # "rmp" => Target(E) \in DOMAIN c'.p
      /\ E.op \notin PartOps => c'.p = c.p
      /\ E.op = "rmp" => E.part \notin DOMAIN c'.p /\ act'.ret = (E.part \in DOMAIN c.p)
      /\ E.op = "addp" => c'.p[E.part].enclave = E.enclave
                          /\ c'.p[E.part].nodes = Nodes(c, E.part)
      /\ E.op = "upd" => Nodes(c', E.msg.gid) = E.msg.nodes
      /\ (E.op \in PartOps \ {"addp", "rmp"} /\ Target(E) \in DOMAIN c.p) =>
           c'.p[Target(E)].enclave = c.p[Target(E)].enclave ]_vars

(* C03: at most one node entry is affected, and only as asked *)
SameExcept(old, new, i) == /\ Len(old) = Len(new)
                           /\ \A j \in 1..Len(old) : j # i => new[j] = old[j]
EditsLocal ==
  [][ E.op \in {"addn", "rmn", "asw", "dsw", "asr", "dsr"} =>
        LET old == Nodes(c, E.part)
            new == Nodes(c', E.part)
            hit == {i \in 1..Len(old) : old[i].name = E.name /\ old[i].ns = E.ns}
            first(i) == i \in hit /\ \A j \in hit : i <= j
        IN CASE E.op = "addn" ->
                  new = Append(old, [name |-> E.name, ns |-> E.ns, r |-> <<>>, w |-> <<>>])
             [] E.op = "rmn" ->
                  \E i \in hit : first(i) /\ Len(new) = Len(old) - 1
                     /\ \A j \in 1..Len(new) : new[j] = IF j < i THEN old[j] ELSE old[j + 1]
             [] OTHER ->
                  \E i \in hit :
                    /\ first(i) /\ SameExcept(old, new, i)
                    /\ new[i].name = old[i].name /\ new[i].ns = old[i].ns
                    /\ LET wr == E.op \in {"asw", "dsw"}
                           a == IF wr THEN old[i].w ELSE old[i].r
                           b == IF wr THEN new[i].w ELSE new[i].r
                           d == IF E.op \in {"asw", "asr"} THEN 1 ELSE
                                IF E.gid \in SeqRange(a) THEN -1 ELSE 0
                       IN /\ (IF wr THEN new[i].r = old[i].r ELSE new[i].w = old[i].w)
                          /\ Occurs(b, E.gid) = Occurs(a, E.gid) + d
                          /\ \A g \in Gids \ {E.gid} : Occurs(b, g) = Occurs(a, g) ]_vars

(* C04: the announcement of an edit, applied anywhere, reproduces the participant. *)
(* Every reachable cache is taken as a possible receiver through `Others`.         *)
Others == {EmptyCache,
           [EmptyCache EXCEPT !.p = [p \in Parts |-> [enclave |-> "other", nodes |-> <<>>]]],
           [EmptyCache EXCEPT !.p = [p \in Parts |-> [enclave |-> "other",
               nodes |-> <<[name |-> "stale", ns |-> "/s", r |-> <<"sg">>, w |-> <<"sg", "sg">>]>>]]]}
AnnouncementsComplete ==
  [][ E.op \in {"addn", "rmn", "asw", "dsw", "asr", "dsr"} =>
        LET m == Snapshot(c', E.part)
        IN \A x \in Others :
             LET y == Update(x, m) IN
               /\ Nodes(y, E.part) = Nodes(c', E.part)
               /\ \A p \in Parts \ {E.part} : Nodes(y, p) = Nodes(x, p) ]_vars

(* C05: attribution never invents an owner and never misses one *)
AttributionSound ==
  \A s \in {"r", "w"} : \A g \in Eps(c, s) :
    LET O == Owners(c, s, g)
        pid == Side(c, s)[g].part
        ann == \E i \in 1..Len(Nodes(c, pid)) :
                 g \in SeqRange(IF s = "r" THEN Nodes(c, pid)[i].r ELSE Nodes(c, pid)[i].w)
    IN /\ O # {}
       /\ (<<"_CREATED_BY_BARE_DDS_APP_", "_CREATED_BY_BARE_DDS_APP_">> \in O) = (pid \notin DOMAIN c.p)
       /\ (<<"_NODE_NAME_UNKNOWN_", "_NODE_NAMESPACE_UNKNOWN_">> \in O) = (pid \in DOMAIN c.p /\ ~ann)
       /\ ann => \A o \in O : HasNode(c, pid, o[1], o[2])

(* C06: what a node is said to offer is globally visible and announced by it *)
NodeQueriesSound ==
  \A x \in NodeList(c) :
    LET nd == c.p[x[1]].nodes[x[2]]
    IN /\ Pairs(c.w, SeqRange(nd.w)) \subseteq AllPairs(c)
       /\ Pairs(c.r, SeqRange(nd.r)) \subseteq AllPairs(c)
       /\ Homonyms(c, nd.name, nd.ns) # {}

(* C07: an operation is notified unless it reports that it changed nothing; *)
(* anything not notified leaves the cache equal                             *)
NotifyIffEffective ==
  [][ /\ act'.chg = (E.op \notin {"add", "rm", "rmp"} \/ act'.ret = TRUE)
      /\ ~act'.chg => c' = c ]_vars

(* counts agree with listings; sums over topics give all endpoints *)
CountsConsistent ==
  \A s \in {"r", "w"} :
    LET cnt[T \in SUBSET Topics] ==
          IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE IN Count(c, s, t) + cnt[T \ {t}]
    IN cnt[Topics] = Cardinality(Eps(c, s))
TypeOK == c.cb = 0 /\ DOMAIN c.p \subseteq Parts /\ Eps(c, "r") \subseteq Gids /\ Eps(c, "w") \subseteq Gids
=============================================================================
