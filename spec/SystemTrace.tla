---------------------------- MODULE SystemTrace ----------------------------
(* Accepts exactly the recorded runs of several real contexts in which every  *)
(* context answers as SystemOps demands of somebody who has been told what    *)
(* it has been told.  No graph cache is modelled here: the world consists of  *)
(* what the users did (context operations), what the middleware passed on     *)
(* (discovery, announcements), and the answers are judged from that.          *)
EXTENDS SystemOps, Json, TLC, IOUtils

CONSTANT Focus
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, w, me
vars == <<l, w, me>>

ChkL(aspect, what, cond) ==
  IF aspect \notin Focus THEN TRUE
  ELSE IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", l, aspect, what>>) /\ FALSE

Ev == Trace[l]
X == me[Ev.c]
Init == l = 1 /\ w = World({}) /\ me = <<>>

Reset ==
  /\ Ev.op = "reset"
  /\ me' = Ev.gids
  /\ w' = World(SeqRange(Ev.gids))

Find1 == Ev.op = "add" /\ w' = Find(w, X, <<Ev.side, Ev.gid>>, [topic |-> Ev.topic, type |-> Ev.type, part |-> Ev.part])
Lose1 == Ev.op = "rm" /\ w' = Lose(w, X, <<Ev.side, Ev.gid>>)
Meet == Ev.op = "addp" /\ Ev.part \in Parts(w) /\ w' = Join(w, X, Ev.part, Ev.enclave)
Part == Ev.op = "rmp" /\ Ev.part \in Parts(w) /\ Ev.part # X /\ w' = Drop(w, X, Ev.part)
Hear1 ==
  /\ Ev.op = "deliver"
  /\ LET s == me[Ev.from] IN
       w' = IF Ev.none THEN w ELSE Hear(w, X, s, Ev.k)
Quit == Ev.op = "leave" /\ w' = Leave(w, X)

Ok == Ev.mode = "ok"
N == <<Ev.name, Ev.ns>>
Eps == IF Ev.what \in {"add_pub", "rm_pub"} THEN {<<"w", Ev.gw>>}
       ELSE IF Ev.what \in {"add_sub", "rm_sub"} THEN {<<"r", Ev.gw>>}
       ELSE {<<"w", Ev.gw>>, <<"r", Ev.gr>>}
Do ==
  /\ Ev.op = "ctx" /\ X \notin w.left
  /\ ChkL("told", "succeeds exactly if announced", (Ev.ret = 0) = Ok)
  /\ CASE Ev.what = "add_node" -> MkNodeDefined(w, X, N) /\ w' = MkNode(w, X, N, Ok)
       [] Ev.what = "rm_node" -> RmNodeDefined(w, X, N) /\ w' = RmNode(w, X, N, Ok)
       [] Ev.what \in {"add_pub", "add_sub", "add_cli", "add_srv"} ->
            AttachDefined(w, X, N, Eps) /\ w' = Attach(w, X, N, Eps, Ok)
       [] OTHER -> DetachDefined(w, X, N, Eps) /\ w' = Detach(w, X, N, Eps, Ok)

(* ---- answers of context X ---- *)
RowsOK(side, t, dy, q) ==
  LET want == OnTopic(w, X, side, t) IN
  /\ ChkL("ends", <<"endpoints on", t>>,
          /\ q.ret = 0 /\ Len(q.val) = Cardinality(want)
          /\ {<<side, q.val[i].gid>> : i \in 1..Len(q.val)} = want)
  /\ \A i \in 1..Len(q.val) :
       LET ep == <<side, q.val[i].gid>> IN
       ep \in want =>
         /\ ChkL("owner", <<"node named for", ep>>, <<q.val[i].node, q.val[i].ns>> \in OwnersAllowed(w, X, ep))
         /\ ChkL("ends", <<"type of", ep>>, q.val[i].type = Demangle(dy, w.disc[X][ep].type))
NodesOK(o) ==
  LET now == NodesNow(w, X)
      row(y) == <<y[2][1], y[2][2], EnclaveOf(w, X, y[1])>>
      names == {SubSeq(o.names2.val[i], 1, 2) : i \in 1..Len(o.names2.val)}
  IN /\ ChkL("node", "only nodes that existed", o.names2.ret = 0 /\ names \subseteq w.was)
     /\ ChkL("node", "own nodes", w.nodes[X] \subseteq names)
     /\ AllFresh(w, X) =>
          /\ ChkL("node", "number of nodes", Len(o.names.val) = Cardinality(now) /\ o.num.val = Cardinality(now))
          /\ ChkL("node", "all nodes",
                  /\ SeqRange(o.names.val) = {row(y) : y \in now}
                  /\ \A y \in now : Occurs(o.names.val, row(y)) = Cardinality({z \in now : row(z) = row(y)}))
ByNodeNow(side, b, q, dt, dy) ==
  LET H == {y \in NodesNow(w, X) : y[2] = <<b.name, b.ns>>}
      ends(y) == {ep \in NodeEnds(w, y[1], y[2]) : ep[1] = side}
  IN AllFresh(w, X) =>
       ChkL("bynode", <<"endpoints of node", b.name, b.ns>>,
            IF H = {} THEN q.ret # 0 /\ q.val = <<>>
            ELSE q.ret = 0 /\ \E y \in H : NtOK(WPairs(w, X, ends(y)), dt, dy, q.val))
Look ==
  /\ Ev.op = "obs" /\ w' = w
  /\ LET o == Ev.o IN
     /\ ("iw" \in DOMAIN o) => \A i \in 1..Len(o.iw) :
          RowsOK("w", o.iw[i][1], o.dy, o.iw[i][2]) /\ RowsOK("r", o.ir[i][1], o.dy, o.ir[i][2])
     /\ ("cw" \in DOMAIN o) => \A i \in 1..Len(o.cw) :
          ChkL("ends", <<"count on", o.cw[i][1]>>,
               /\ o.cw[i][2].val = Cardinality(OnTopic(w, X, "w", o.cw[i][1]))
               /\ o.cr[i][2].val = Cardinality(OnTopic(w, X, "r", o.cw[i][1])))
     /\ ("names" \in DOMAIN o) => NodesOK(o)
     /\ ("nt" \in DOMAIN o) => ChkL("ends", "topics", NtOK(WPairs(w, X, DOMAIN w.disc[X]), o.dt, o.dy, o.nt.val))
     /\ ("bn" \in DOMAIN o) => \A i \in 1..Len(o.bn) :
          ByNodeNow("w", o.bn[i], o.bn[i].w, o.dt, o.dy) /\ ByNodeNow("r", o.bn[i], o.bn[i].r, o.dt, o.dy)
(* the run claims that everything has been passed on to context X *)
Settled ==
  /\ Ev.op = "settled" /\ w' = w
  /\ AllFresh(w, X)
  /\ DOMAIN w.att \subseteq DOMAIN w.disc[X] \cup {ep \in DOMAIN w.att : w.att[ep][1] \in w.left}

Next == /\ l <= Len(Trace)
        /\ \/ Reset /\ TRUE
           \/ (Find1 \/ Lose1 \/ Meet \/ Part \/ Hear1 \/ Quit \/ Do \/ Look \/ Settled) /\ UNCHANGED me
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
  ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter, Len(Trace)>>) /\ FALSE
=============================================================================
