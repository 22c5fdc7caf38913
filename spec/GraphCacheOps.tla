--------------------------- MODULE GraphCacheOps ---------------------------
(* Abstract state of one graph cache (rmw_dds_common::GraphCache) and the    *)
(* effect and answer of every public operation, as pure operators.           *)
(*                                                                           *)
(* A cache is a record                                                       *)
(*   w, r : endpoint id -> [topic, type, hash, part, qos]   discovered       *)
(*          writers / readers (two independent id spaces)                    *)
(*   p    : participant id -> [enclave, nodes], nodes a sequence of          *)
(*          [name, ns, r, w] with r, w sequences of endpoint ids             *)
(*   cb   : id of the installed on-change callback, 0 if none                *)
(* Ids are opaque values (32 hexadecimal digits in recorded traces).         *)
(*                                                                           *)
(* An operation is a record with field `op` and its arguments, exactly the   *)
(* shape of the events the conformance driver records, so that the state     *)
(* machine (GraphCache), the trace specifications (GraphTrace, LinTrace) and *)
(* the network model (Discovery) share this one definition.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

EmptyCache == [w |-> <<>>, r |-> <<>>, p |-> <<>>, cb |-> 0]

ZeroHash == "0:0000000000000000000000000000000000000000000000000000000000000000"

(* ---- finite maps and sequences ---- *)
MapSet(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
MapDel(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
SeqRange(s) == {s[i] : i \in 1..Len(s)}
SeqDel(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
SeqSet(s, i, v) == [j \in 1..Len(s) |-> IF j = i THEN v ELSE s[j]]
Occurs(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) ==
  /\ Len(s) = Len(t)
  /\ \A x \in SeqRange(s) : Occurs(s, x) = Occurs(t, x)
(* first index satisfying P, 0 if none *)
FirstIdx(s, P(_)) ==
  IF \E i \in 1..Len(s) : P(s[i])
  THEN CHOOSE i \in 1..Len(s) : P(s[i]) /\ \A j \in 1..(i - 1) : ~P(s[j])
  ELSE 0

(* ---- nodes ---- *)
NewNode(n, ns) == [name |-> n, ns |-> ns, r |-> <<>>, w |-> <<>>]
Nodes(c, pid) == IF pid \in DOMAIN c.p THEN c.p[pid].nodes ELSE <<>>
NodeIdx(c, pid, n, ns) ==
  LET Is(x) == x.name = n /\ x.ns = ns IN FirstIdx(Nodes(c, pid), Is)
HasNode(c, pid, n, ns) == NodeIdx(c, pid, n, ns) # 0
Snapshot(c, pid) == [gid |-> pid, nodes |-> Nodes(c, pid)]
SetNodes(c, pid, nodes) ==
  LET enc == IF pid \in DOMAIN c.p THEN c.p[pid].enclave ELSE ""
  IN [c EXCEPT !.p = MapSet(c.p, pid, [enclave |-> enc, nodes |-> nodes])]

(* ---- operations: [c |-> new cache, ret |-> result, chg |-> changed?] ---- *)
Res(c, ret, chg) == [c |-> c, ret |-> ret, chg |-> chg]

HashOf(e) == IF e.via \in {"nohash", "entity_nohash"} THEN ZeroHash ELSE e.hash

AddEndpoint(c, e) ==
  LET d == [topic |-> e.topic, type |-> e.type, hash |-> HashOf(e), part |-> e.part, qos |-> e.qos]
  IN IF e.side = "r"
     THEN IF e.gid \in DOMAIN c.r THEN Res(c, FALSE, FALSE)
          ELSE Res([c EXCEPT !.r = MapSet(c.r, e.gid, d)], TRUE, TRUE)
     ELSE IF e.gid \in DOMAIN c.w THEN Res(c, FALSE, FALSE)
          ELSE Res([c EXCEPT !.w = MapSet(c.w, e.gid, d)], TRUE, TRUE)

RemoveEndpoint(c, e) ==
  IF e.side = "r"
  THEN IF e.gid \in DOMAIN c.r THEN Res([c EXCEPT !.r = MapDel(c.r, e.gid)], TRUE, TRUE)
       ELSE Res(c, FALSE, FALSE)
  ELSE IF e.gid \in DOMAIN c.w THEN Res([c EXCEPT !.w = MapDel(c.w, e.gid)], TRUE, TRUE)
       ELSE Res(c, FALSE, FALSE)

AddParticipant(c, e) ==
  Res([c EXCEPT !.p = MapSet(c.p, e.part, [enclave |-> e.enclave, nodes |-> Nodes(c, e.part)])],
      TRUE, TRUE)
RemoveParticipant(c, e) ==
  IF e.part \in DOMAIN c.p THEN Res([c EXCEPT !.p = MapDel(c.p, e.part)], TRUE, TRUE)
  ELSE Res(c, FALSE, FALSE)
(* an announcement (from anybody) replaces the node list of its participant *)
Update(c, m) == SetNodes(c, m.gid, m.nodes)

AddNode(c, pid, n, ns) == SetNodes(c, pid, Append(Nodes(c, pid), NewNode(n, ns)))
RemoveNode(c, pid, n, ns) ==
  SetNodes(c, pid, SeqDel(Nodes(c, pid), NodeIdx(c, pid, n, ns)))
EditNode(c, pid, n, ns, F(_)) ==
  LET i == NodeIdx(c, pid, n, ns)
  IN SetNodes(c, pid, SeqSet(Nodes(c, pid), i, F(Nodes(c, pid)[i])))
AssocW(c, g, pid, n, ns) ==
  LET F(x) == [x EXCEPT !.w = Append(@, g)] IN EditNode(c, pid, n, ns, F)
AssocR(c, g, pid, n, ns) ==
  LET F(x) == [x EXCEPT !.r = Append(@, g)] IN EditNode(c, pid, n, ns, F)
DropOne(s, g) == LET Is(x) == x = g
                     i == FirstIdx(s, Is) IN IF i = 0 THEN s ELSE SeqDel(s, i)
DissocW(c, g, pid, n, ns) ==
  LET F(x) == [x EXCEPT !.w = DropOne(@, g)] IN EditNode(c, pid, n, ns, F)
DissocR(c, g, pid, n, ns) ==
  LET F(x) == [x EXCEPT !.r = DropOne(@, g)] IN EditNode(c, pid, n, ns, F)

(* node-level operations are only defined when their target exists *)
NodeOps == {"rmn", "asw", "dsw", "asr", "dsr"}
Defined(c, e) ==
  CASE e.op = "addn" -> e.part \in DOMAIN c.p
    [] e.op \in NodeOps -> HasNode(c, e.part, e.name, e.ns)
    [] OTHER -> TRUE

Apply(c, e) ==
  CASE e.op = "add" -> AddEndpoint(c, e)
    [] e.op = "rm" -> RemoveEndpoint(c, e)
    [] e.op = "addp" -> AddParticipant(c, e)
    [] e.op = "rmp" -> RemoveParticipant(c, e)
    [] e.op \in {"upd", "relay", "deliver"} -> Res(Update(c, e.msg), TRUE, TRUE)
    [] e.op = "addn" -> Res(AddNode(c, e.part, e.name, e.ns), TRUE, TRUE)
    [] e.op = "rmn" -> Res(RemoveNode(c, e.part, e.name, e.ns), TRUE, TRUE)
    [] e.op = "asw" -> Res(AssocW(c, e.gid, e.part, e.name, e.ns), TRUE, TRUE)
    [] e.op = "dsw" -> Res(DissocW(c, e.gid, e.part, e.name, e.ns), TRUE, TRUE)
    [] e.op = "asr" -> Res(AssocR(c, e.gid, e.part, e.name, e.ns), TRUE, TRUE)
    [] e.op = "dsr" -> Res(DissocR(c, e.gid, e.part, e.name, e.ns), TRUE, TRUE)
    [] e.op = "setcb" -> Res([c EXCEPT !.cb = e.id], TRUE, FALSE)
    [] e.op = "clearcb" -> Res([c EXCEPT !.cb = 0], TRUE, FALSE)

(* ---- context operations (local updates that are announced) ---- *)
(* gw: id of the publisher side, gr: id of the subscriber side of the entity; *)
(* a plain publisher or subscription uses gw for its only id.                 *)
CtxAdds == {"add_node", "add_pub", "add_sub", "add_cli", "add_srv"}
CtxRems == {"rm_node", "rm_pub", "rm_sub", "rm_cli", "rm_srv"}
CtxEdit(c, me, e) ==
  CASE e.what = "add_node" -> AddNode(c, me, e.name, e.ns)
    [] e.what = "rm_node" -> RemoveNode(c, me, e.name, e.ns)
    [] e.what = "add_pub" -> AssocW(c, e.gw, me, e.name, e.ns)
    [] e.what = "rm_pub" -> DissocW(c, e.gw, me, e.name, e.ns)
    [] e.what = "add_sub" -> AssocR(c, e.gw, me, e.name, e.ns)
    [] e.what = "rm_sub" -> DissocR(c, e.gw, me, e.name, e.ns)
    [] e.what \in {"add_cli", "add_srv"} ->
         AssocR(AssocW(c, e.gw, me, e.name, e.ns), e.gr, me, e.name, e.ns)
    [] e.what \in {"rm_cli", "rm_srv"} ->
         DissocR(DissocW(c, e.gw, me, e.name, e.ns), e.gr, me, e.name, e.ns)
CtxDefined(c, me, e) ==
  IF e.what = "add_node" THEN me \in DOMAIN c.p ELSE HasNode(c, me, e.name, e.ns)
(* publication fails: an addition is undone, a removal stays *)
CtxApply(c, me, e, ok) ==
  LET n == CtxEdit(c, me, e)
  IN [c |-> IF ok \/ e.what \in CtxRems THEN n ELSE c,
      ok |-> ok,
      msg |-> Snapshot(n, me)]

(* ---- queries ---- *)
Side(c, s) == IF s = "r" THEN c.r ELSE c.w
Count(c, s, t) == Cardinality({g \in DOMAIN Side(c, s) : Side(c, s)[g].topic = t})

Demangle(kind, s) ==
  CASE kind = "id" -> s
    [] kind = "ros" -> IF Len(s) >= 2 /\ SubSeq(s, 1, 2) = "rt" THEN SubSeq(s, 3, Len(s)) ELSE ""
    [] kind = "first" -> IF Len(s) = 0 THEN "" ELSE SubSeq(s, 1, 1)
    [] kind = "const" -> "k"
    [] kind = "hide" -> ""
    [] kind = "bang" -> s \o "!"

(* possible owners of an endpoint: <<node, namespace>> pairs *)
Owners(c, s, g) ==
  LET pid == Side(c, s)[g].part
      ns == Nodes(c, pid)
      own == {i \in 1..Len(ns) : g \in SeqRange(IF s = "r" THEN ns[i].r ELSE ns[i].w)}
  IN IF pid \notin DOMAIN c.p
     THEN {<<"_CREATED_BY_BARE_DDS_APP_", "_CREATED_BY_BARE_DDS_APP_">>}
     ELSE IF own = {} THEN {<<"_NODE_NAME_UNKNOWN_", "_NODE_NAMESPACE_UNKNOWN_">>}
     ELSE {<<ns[i].name, ns[i].ns>> : i \in own}

InfoOK(c, s, t, dy, v) ==
  LET m == Side(c, s)
      want == {g \in DOMAIN m : m[g].topic = t}
  IN /\ Len(v) = Cardinality(want)
     /\ {v[i].gid : i \in 1..Len(v)} = want
     /\ \A i \in 1..Len(v) :
          LET d == m[v[i].gid] IN
            /\ <<v[i].node, v[i].ns>> \in Owners(c, s, v[i].gid)
            /\ v[i].type = Demangle(dy, d.type)
            /\ v[i].hash = d.hash
            /\ v[i].kind = (IF s = "r" THEN "sub" ELSE "pub")
            /\ v[i].qos = d.qos
(* the part of the above that only says which endpoints exist *)
InfoIdsOK(c, s, t, v) ==
  LET m == Side(c, s)
      want == {g \in DOMAIN m : m[g].topic = t}
  IN Len(v) = Cardinality(want) /\ {v[i].gid : i \in 1..Len(v)} = want

NodeList(c) == UNION {{<<pid, i>> : i \in 1..Len(c.p[pid].nodes)} : pid \in DOMAIN c.p}
NodeRow(c, x) == LET n == c.p[x[1]].nodes[x[2]] IN <<n.name, n.ns, c.p[x[1]].enclave>>
(* v is a bag of rows, one per node *)
NamesOK(c, v, withEnclave) ==
  LET nl == NodeList(c)
      Row(x) == IF withEnclave THEN NodeRow(c, x) ELSE SubSeq(NodeRow(c, x), 1, 2)
      rows == {Row(x) : x \in nl}
  IN /\ Len(v) = Cardinality(nl)
     /\ SeqRange(v) = rows
     /\ \A y \in rows : Occurs(v, y) = Cardinality({x \in nl : Row(x) = y})

(* names-and-types answer for a set of <<topic, type>> pairs *)
NtOK(pairs, dt, dy, v) ==
  LET dp == {<<Demangle(dt, x[1]), Demangle(dy, x[2])>> : x \in pairs}
      vis == {x \in dp : x[1] # ""}
      names == {x[1] : x \in vis}
  IN /\ Len(v) = Cardinality(names)
     /\ {v[i][1] : i \in 1..Len(v)} = names
     /\ \A i \in 1..Len(v) :
          LET ty == {x[2] : x \in {y \in vis : y[1] = v[i][1]}}
          IN SeqRange(v[i][2]) = ty /\ Len(v[i][2]) = Cardinality(ty)
Pairs(m, gs) == {<<m[g].topic, m[g].type>> : g \in gs \cap DOMAIN m}
AllPairs(c) == Pairs(c.r, DOMAIN c.r) \cup Pairs(c.w, DOMAIN c.w)

Homonyms(c, n, ns) == {x \in NodeList(c) : NodeRow(c, x)[1] = n /\ NodeRow(c, x)[2] = ns}
ByNodeOK(c, s, n, ns, dt, dy, ret, v) ==
  LET H == Homonyms(c, n, ns) IN
    IF H = {} THEN ret = 203 /\ v = <<>>
    ELSE /\ ret = 0
         /\ \E x \in H :
              LET nd == c.p[x[1]].nodes[x[2]]
              IN NtOK(Pairs(Side(c, s), SeqRange(IF s = "r" THEN nd.r ELSE nd.w)), dt, dy, v)

(* two node sequences agree up to the order of ids inside a node *)
SameNodes(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) :
       /\ a[i].name = b[i].name /\ a[i].ns = b[i].ns
       /\ SameBag(a[i].r, b[i].r) /\ SameBag(a[i].w, b[i].w)
SameMsg(a, b) == a.gid = b.gid /\ SameNodes(a.nodes, b.nodes)

(* printed form, after parsing: d = [w, r : sequences of [gid, topic, type],   *)
(* p : sequence of [gid, enclave, nodes]]                                      *)
DumpSideOK(m, v) ==
  /\ Len(v) = Cardinality(DOMAIN m)
  /\ SeqRange(v) = {[gid |-> g, topic |-> m[g].topic, type |-> m[g].type] : g \in DOMAIN m}
DumpOK(c, d) ==
  /\ DumpSideOK(c.w, d.w) /\ DumpSideOK(c.r, d.r)
  /\ Len(d.p) = Cardinality(DOMAIN c.p)
  /\ {d.p[i].gid : i \in 1..Len(d.p)} = DOMAIN c.p
  /\ \A i \in 1..Len(d.p) :
       d.p[i].enclave = c.p[d.p[i].gid].enclave /\ SameNodes(d.p[i].nodes, c.p[d.p[i].gid].nodes)
=============================================================================
