------------------------------- MODULE System -------------------------------
(* Participants with nodes and endpoints in a network: creating and removing  *)
(* nodes and endpoints, announcing that, discovering participants and         *)
(* endpoints - independently of each other and in any order - losing and      *)
(* finding them again, announcements being superseded or not sent, and        *)
(* participants leaving.  Every context's cache (GraphCacheOps) is fed with   *)
(* announcements and discoveries only; checked is that it answers as          *)
(* SystemOps demands of somebody who has been told that much.                 *)
EXTENDS SystemOps, Json

CONSTANTS Ctxs,      \* participants, with one context each
          Makers,    \* those that create something
          Names,
          Ents,      \* [p: participant, k: pub | sub | cli, w, r: ids ("" if none)]
          MaxOps,    \* local operations per participant
          MayFail, MayLose, MayLeave, MayReuse, EmitOn

VARIABLES wd,    \* the world
          cs,    \* context -> cache
          ann,   \* participant -> announcements sent
          life,  \* entity -> "none" | "up" | "on" | "down" | "gone"
          ops,
          act
vars == <<wd, cs, ann, life, ops, act>>
View == <<wd, cs, ann, life, ops>>

Eps(e) == (IF e.w # "" THEN {<<"w", e.w>>} ELSE {}) \cup (IF e.r # "" THEN {<<"r", e.r>>} ELSE {})
Ends == UNION {Eps(e) : e \in Ents}
EntOf(ep) == CHOOSE e \in Ents : ep \in Eps(e)
Exists(ep) == life[EntOf(ep)] \in {"up", "on", "down"}
Data(ep) == [topic |-> EntOf(ep).t, type |-> "T", part |-> EntOf(ep).p]
Ns == "/"

Init ==
  /\ wd = [World(Ctxs) EXCEPT !.enc = [x \in Ctxs |-> [s \in {x} |-> ""]]]
  /\ cs = [x \in Ctxs |-> AddParticipant(EmptyCache, [part |-> x, enclave |-> ""]).c]
  /\ ann = [s \in Ctxs |-> <<>>]
  /\ life = [e \in Ents |-> "none"]
  /\ ops = [s \in Ctxs |-> 0]
  /\ act = [a |-> "init"]

(* the cache of s and the announcements follow CtxApply *)
Local(s, what, n, e, ok) ==
  /\ s \notin wd.left /\ ops[s] < MaxOps
  /\ ok \/ MayFail
  /\ LET call == [what |-> what, name |-> n, ns |-> Ns,
                  gw |-> IF e.k = "sub" THEN e.r ELSE e.w, gr |-> e.r]
         r == CtxApply(cs[s], s, call, ok)
     IN /\ CtxDefined(cs[s], s, call)
        /\ cs' = [cs EXCEPT ![s] = r.c]
        /\ ann' = IF ok THEN [ann EXCEPT ![s] = Append(@, r.msg)] ELSE ann
        /\ act' = [a |-> "op", s |-> s, what |-> what, n |-> n, w |-> e.w, r |-> e.r, ok |-> ok]
  /\ ops' = [ops EXCEPT ![s] = @ + 1]

None == [p |-> "", k |-> "none", w |-> "", r |-> ""]
NodeUp(s, n, ok) ==
  /\ MkNodeDefined(wd, s, <<n, Ns>>) /\ Local(s, "add_node", n, None, ok)
  /\ (MayReuse \/ <<n, Ns>> \notin wd.was)
  /\ wd' = MkNode(wd, s, <<n, Ns>>, ok) /\ UNCHANGED life
NodeDown(s, n, ok) ==
  /\ RmNodeDefined(wd, s, <<n, Ns>>) /\ Local(s, "rm_node", n, None, ok)
  /\ wd' = RmNode(wd, s, <<n, Ns>>, ok) /\ UNCHANGED life
(* the endpoint exists in the middleware before it is attached and after it was detached *)
Create(e) ==
  /\ life[e] = "none" /\ e.p \notin wd.left /\ wd.nodes[e.p] # {}
  /\ life' = [life EXCEPT ![e] = "up"]
  /\ act' = [a |-> "create"]
  /\ UNCHANGED <<wd, cs, ann, ops>>
Kinds == [pub |-> "add_pub", sub |-> "add_sub", cli |-> "add_cli"]
UnKinds == [pub |-> "rm_pub", sub |-> "rm_sub", cli |-> "rm_cli"]
Use(e, n, ok) ==
  /\ life[e] = "up" /\ AttachDefined(wd, e.p, <<n, Ns>>, Eps(e)) /\ Local(e.p, Kinds[e.k], n, e, ok)
  /\ wd' = Attach(wd, e.p, <<n, Ns>>, Eps(e), ok)
  /\ life' = [life EXCEPT ![e] = IF ok THEN "on" ELSE "gone"]
Unuse(e, n, ok) ==
  /\ life[e] = "on" /\ DetachDefined(wd, e.p, <<n, Ns>>, Eps(e)) /\ Local(e.p, UnKinds[e.k], n, e, ok)
  /\ wd' = Detach(wd, e.p, <<n, Ns>>, Eps(e), ok)
  /\ life' = [life EXCEPT ![e] = "down"]
Destroy(e) ==
  /\ life[e] = "down"
  /\ life' = [life EXCEPT ![e] = "gone"]
  /\ act' = [a |-> "destroy"]
  /\ UNCHANGED <<wd, cs, ann, ops>>

Meet(x, s) ==
  /\ x \notin wd.left /\ s \notin wd.left /\ s \notin DOMAIN wd.enc[x]
  /\ wd' = Join(wd, x, s, "")
  /\ cs' = [cs EXCEPT ![x] = AddParticipant(@, [part |-> s, enclave |-> ""]).c]
  /\ act' = [a |-> "meet", x |-> x, s |-> s]
  /\ UNCHANGED <<ann, life, ops>>
(* s is reported gone, rightly or (MayLose) only for a while *)
Part(x, s) ==
  /\ x # s /\ x \notin wd.left /\ (s \in wd.left \/ MayLose) /\ s \in DOMAIN wd.enc[x]
  /\ wd' = Drop(wd, x, s)
  /\ cs' = [cs EXCEPT ![x] = RemoveParticipant(@, [part |-> s]).c]
  /\ act' = [a |-> "part", x |-> x, s |-> s]
  /\ UNCHANGED <<ann, life, ops>>
Deliver(x, s, k) ==
  /\ x # s /\ x \notin wd.left /\ k \in wd.got[x][s] + 1..Len(ann[s])
  /\ (s \in wd.left => s \in DOMAIN wd.enc[x])
  /\ wd' = Hear(wd, x, s, k)
  /\ cs' = [cs EXCEPT ![x] = Update(@, ann[s][k])]
  /\ act' = [a |-> "del", x |-> x, s |-> s, k |-> k]
  /\ UNCHANGED <<ann, life, ops>>
Discover(x, ep) ==
  /\ x \notin wd.left /\ Exists(ep) /\ EntOf(ep).p \notin wd.left /\ ep \notin DOMAIN wd.disc[x]
  /\ wd' = Find(wd, x, ep, Data(ep))
  /\ cs' = [cs EXCEPT ![x] = AddEndpoint(@, [side |-> ep[1], gid |-> ep[2], topic |-> EntOf(ep).t, type |-> "T",
                                             hash |-> "h", via |-> "direct", part |-> EntOf(ep).p, qos |-> "q"]).c]
  /\ act' = [a |-> "find", x |-> x, ep |-> ep]
  /\ UNCHANGED <<ann, life, ops>>
Vanish(x, ep) ==
  /\ x \notin wd.left /\ ep \in DOMAIN wd.disc[x]
  /\ (MayLose \/ ~Exists(ep) \/ EntOf(ep).p \in wd.left)
  /\ wd' = Lose(wd, x, ep)
  /\ cs' = [cs EXCEPT ![x] = RemoveEndpoint(@, [side |-> ep[1], gid |-> ep[2]]).c]
  /\ act' = [a |-> "lose", x |-> x, ep |-> ep]
  /\ UNCHANGED <<ann, life, ops>>
Quit(s) ==
  /\ MayLeave /\ s \in Makers /\ s \notin wd.left
  /\ wd' = Leave(wd, s)
  /\ act' = [a |-> "leave", s |-> s]
  /\ UNCHANGED <<cs, ann, life, ops>>

Next ==
  \/ \E s \in Makers, n \in Names, ok \in BOOLEAN : NodeUp(s, n, ok) \/ NodeDown(s, n, ok)
  \/ \E e \in Ents : Create(e) \/ Destroy(e)
  \/ \E e \in Ents, n \in Names, ok \in BOOLEAN : Use(e, n, ok) \/ Unuse(e, n, ok)
  \/ \E x, s \in Ctxs : Meet(x, s) \/ Part(x, s)
  \/ \E x, s \in Ctxs, k \in 1..MaxOps : Deliver(x, s, k)
  \/ \E x \in Ctxs, ep \in Ends : Discover(x, ep) \/ Vanish(x, ep)
  \/ \E s \in Ctxs : Quit(s)
Spec == Init /\ [][Next]_vars
(* the middleware gets everything through in the end *)
Fair ==
  /\ \A x, s \in Ctxs : /\ SF_vars(\E k \in 1..MaxOps : Deliver(x, s, k) /\ k = Len(ann[s]))
                       /\ WF_vars(Meet(x, s)) /\ WF_vars(Part(x, s) /\ s \in wd.left)
  /\ \A x \in Ctxs, ep \in Ends : WF_vars(Discover(x, ep)) /\ WF_vars(Vanish(x, ep))
FairSpec == Spec /\ Fair

Emit == EmitOn => PrintT("EDGE" \o ToJson([i |-> (act.a = "init"), a |-> act', s |-> View, t |-> View']))

(* ------------------------------ properties ------------------------------ *)
Observers == Ctxs \ wd.left
Topics == {e.t : e \in Ents}
(* never another node than the one that created it; the creator once x has heard the last word *)
Attribution ==
  \A x \in Observers : \A ep \in DOMAIN wd.disc[x] :
    Owners(cs[x], ep[1], ep[2]) \subseteq OwnersAllowed(wd, x, ep)
Counted ==
  \A x \in Observers : \A t \in Topics, sd \in {"w", "r"} :
    Count(cs[x], sd, t) = Cardinality(OnTopic(wd, x, sd, t))
(* nothing but nodes that have existed is listed; exactly the existing ones once x has heard the last word *)
Listed ==
  \A x \in Observers :
    LET rows == {<<NodeRow(cs[x], y)[1], NodeRow(cs[x], y)[2]>> : y \in NodeList(cs[x])} IN
    /\ rows \subseteq wd.was /\ wd.nodes[x] \subseteq rows
    /\ AllFresh(wd, x) =>
         {<<y[1], <<NodeRow(cs[x], y)[1], NodeRow(cs[x], y)[2]>>>> : y \in NodeList(cs[x])} = NodesNow(wd, x)
         /\ Cardinality(NodeList(cs[x])) = Cardinality(NodesNow(wd, x))
(* and each node then has exactly the endpoints attached to it *)
ByNode ==
  \A x \in Observers : AllFresh(wd, x) =>
    \A sn \in NodesNow(wd, x) :
      LET i == NodeIdx(cs[x], sn[1], sn[2][1], sn[2][2])
          nd == Nodes(cs[x], sn[1])[i]
      IN /\ {<<"w", g>> : g \in SeqRange(nd.w)} \cup {<<"r", g>> : g \in SeqRange(nd.r)} = NodeEnds(wd, sn[1], sn[2])
         /\ Len(nd.w) + Len(nd.r) = Cardinality(NodeEnds(wd, sn[1], sn[2]))
(* in the end every context knows exactly the participants, nodes and endpoints there are, and whose they are *)
Told ==
  \A x \in Observers :
    /\ AllFresh(wd, x)
    /\ DOMAIN wd.enc[x] = (Ctxs \ wd.left)
    /\ DOMAIN wd.disc[x] = {ep \in Ends : Exists(ep) /\ EntOf(ep).p \notin wd.left}
    /\ \A ep \in DOMAIN wd.disc[x] : life[EntOf(ep)] = "on" => Owners(cs[x], ep[1], ep[2]) = {SubSeq(wd.cre[ep], 2, 3)}
EventuallyTold == <>[]Told
(* refuted by TLC: things that do happen *)
NeverUnknown == \A x \in Observers : \A ep \in DOMAIN wd.disc[x] : Unknown \notin Owners(cs[x], ep[1], ep[2])
NeverBehind == \A x \in Observers : \A ep \in DOMAIN wd.disc[x] :
  ep \in DOMAIN wd.cre /\ ep \notin DOMAIN wd.att => Owners(cs[x], ep[1], ep[2]) # {SubSeq(wd.cre[ep], 2, 3)}
NeverFound == \A x \in Observers : \A ep \in DOMAIN wd.disc[x] :
  x # wd.disc[x][ep].part /\ wd.sent[wd.disc[x][ep].part] > 2 => Owners(cs[x], ep[1], ep[2]) \subseteq {Unknown, Bare}
=============================================================================
