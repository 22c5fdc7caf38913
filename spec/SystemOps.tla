----------------------------- MODULE SystemOps -----------------------------
(* What there really is in the network - participants, their nodes, the       *)
(* endpoints they attached to nodes - and what each context has been told of  *)
(* it so far; and from that alone, without any notion of a graph cache, what  *)
(* a context may and must answer.  Shared by the model (System), which checks *)
(* that caches fed with announcements and discoveries meet it, and by the     *)
(* trace specification (SystemTrace), which holds the real code to it.        *)
(*                                                                            *)
(* A world is a record over participants s (and contexts x, the same ids)     *)
(*   nodes : s -> set of <<name, namespace>> existing now                     *)
(*   att   : endpoint <<side, gid>> -> <<s, name, namespace>> attached now    *)
(*   cre   : the same for every attachment there ever was                     *)
(*   was   : every <<name, namespace>> there ever was                         *)
(*   sent  : s -> number of announcements sent                                *)
(*   clean : s -> is the newest announcement the present state?               *)
(*   got   : x -> s -> newest announcement received                           *)
(*   left  : participants that are gone for good                              *)
(*   enc   : x -> known participants -> enclave                               *)
(*   disc  : x -> discovered endpoints -> [topic, type, part]                 *)
(* Assumed of the users: endpoint ids are unique (never used twice), nodes of *)
(* one participant have different names, and a node is removed only after its *)
(* endpoints.                                                                 *)
EXTENDS GraphCacheOps

Bare == <<"_CREATED_BY_BARE_DDS_APP_", "_CREATED_BY_BARE_DDS_APP_">>
Unknown == <<"_NODE_NAME_UNKNOWN_", "_NODE_NAMESPACE_UNKNOWN_">>

World(S) ==
  [nodes |-> [s \in S |-> {}], att |-> <<>>, cre |-> <<>>, was |-> {},
   sent |-> [s \in S |-> 0], clean |-> [s \in S |-> TRUE], got |-> [x \in S |-> [s \in S |-> 0]],
   left |-> {}, enc |-> [x \in S |-> <<>>], disc |-> [x \in S |-> <<>>]]
Parts(w) == DOMAIN w.nodes

(* ---- what happens ---- *)
Announced(w, s, ok) ==
  IF ok THEN [w EXCEPT !.sent[s] = @ + 1, !.clean[s] = TRUE] ELSE w
MkNodeDefined(w, s, n) == s \in DOMAIN w.enc[s] /\ n \notin w.nodes[s]
MkNode(w, s, n, ok) ==
  IF ok THEN Announced([w EXCEPT !.nodes[s] = @ \cup {n}, !.was = @ \cup {n}], s, TRUE) ELSE w
RmNodeDefined(w, s, n) ==
  n \in w.nodes[s] /\ \A ep \in DOMAIN w.att : w.att[ep] # <<s, n[1], n[2]>>
RmNode(w, s, n, ok) ==
  Announced([w EXCEPT !.nodes[s] = @ \ {n}, !.clean[s] = FALSE], s, ok)
(* eps: the one endpoint of a publisher or subscription, the two of a client or service *)
AttachDefined(w, s, n, eps) ==
  /\ n \in w.nodes[s]
  /\ eps \cap DOMAIN w.cre = {}
Attach(w, s, n, eps, ok) ==
  LET put(m) == [ep \in DOMAIN m \cup eps |-> IF ep \in eps THEN <<s, n[1], n[2]>> ELSE m[ep]]
  IN IF ok THEN Announced([w EXCEPT !.att = put(@), !.cre = put(@)], s, TRUE) ELSE w
DetachDefined(w, s, n, eps) ==
  \A ep \in eps : ep \in DOMAIN w.att /\ w.att[ep] = <<s, n[1], n[2]>>
Detach(w, s, n, eps, ok) ==
  Announced([w EXCEPT !.att = [ep \in DOMAIN @ \ eps |-> @[ep]], !.clean[s] = FALSE], s, ok)

Join(w, x, s, e) == [w EXCEPT !.enc[x] = MapSet(@, s, e)]
Drop(w, x, s) ==
  [w EXCEPT !.enc[x] = MapDel(@, s),
            !.got[x][s] = IF w.sent[s] > 0 /\ @ >= w.sent[s] THEN w.sent[s] - 1 ELSE @]
Hear(w, x, s, k) ==
  [w EXCEPT !.got[x][s] = k, !.enc[x] = IF s \in DOMAIN @ THEN @ ELSE MapSet(@, s, "")]
Leave(w, s) == [w EXCEPT !.left = @ \cup {s}]
Find(w, x, ep, d) == IF ep \in DOMAIN w.disc[x] THEN w ELSE [w EXCEPT !.disc[x] = MapSet(@, ep, d)]
Lose(w, x, ep) == [w EXCEPT !.disc[x] = MapDel(@, ep)]

(* ---- what x may and must answer ---- *)
(* x has heard the last word about s *)
Fresh(w, x, s) ==
  IF x = s THEN TRUE
  ELSE IF s \in w.left THEN s \notin DOMAIN w.enc[x]
  ELSE w.clean[s] /\ w.got[x][s] = w.sent[s]
AllFresh(w, x) == \A s \in Parts(w) : Fresh(w, x, s)
Present(w, x, s) == s \notin w.left \/ x = s

(* the nodes x may name for an endpoint it has discovered; p: the participant it belongs to *)
OwnersAllowed(w, x, ep) ==
  LET p == w.disc[x][ep].part
      ever == IF ep \in DOMAIN w.cre THEN {SubSeq(w.cre[ep], 2, 3)} ELSE {}
  IN IF p \notin DOMAIN w.enc[x] THEN {Bare}
     ELSE IF ~Fresh(w, x, p) THEN {Unknown} \cup ever
     ELSE IF ep \in DOMAIN w.att THEN ever
     ELSE {Unknown}

OnTopic(w, x, side, t) == {ep \in DOMAIN w.disc[x] : ep[1] = side /\ w.disc[x][ep].topic = t}
WPairs(w, x, eps) == {<<w.disc[x][ep].topic, w.disc[x][ep].type>> : ep \in eps \cap DOMAIN w.disc[x]}
(* the nodes there are, with the participants they are in *)
NodesNow(w, x) == UNION {{<<s, n>> : n \in w.nodes[s]} : s \in {q \in Parts(w) : Present(w, x, q)}}
EnclaveOf(w, x, s) == IF s \in DOMAIN w.enc[x] THEN w.enc[x][s] ELSE ""
NodeEnds(w, s, n) == {ep \in DOMAIN w.att : w.att[ep] = <<s, n[1], n[2]>>}
=============================================================================
