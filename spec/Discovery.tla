----------------------------- MODULE Discovery -----------------------------
(* Several contexts keeping each other's graphs up to date: every context    *)
(* announces the state its own participant has after each local operation;   *)
(* announcements of one sender arrive in order but may be replaced by later  *)
(* ones before they arrive (keep-last), senders are not ordered with each    *)
(* other, announcing may fail, contexts join late, leave, and are lost and   *)
(* found again.  Caches and operations are those of GraphCacheOps.           *)
EXTENDS GraphCacheOps, Json

CONSTANTS Ctxs,      \* contexts; also their participant ids
          Names, Gids,
          MaxNodes, MaxGids,
          MaxOps,    \* local operations per context
          Whats,     \* kinds of local operation
          MayFail,   \* may announcing fail?
          MayLeave, MayLose,
          EmitOn

VARIABLES cs,     \* context -> its cache
          ann,    \* context -> announcements it has sent
          got,    \* receiver -> sender -> index of the last announcement received (0: none)
          st,     \* context -> "off" | "on" | "left"
          gone,   \* receiver -> participants it has seen depart for good
          ops,    \* context -> operations done
          act
vars == <<cs, ann, got, st, gone, ops, act>>
View == <<cs, ann, got, st, gone, ops>>

Init ==
  /\ cs = [x \in Ctxs |-> EmptyCache]
  /\ ann = [x \in Ctxs |-> <<>>]
  /\ got = [x \in Ctxs |-> [s \in Ctxs |-> 0]]
  /\ st = [x \in Ctxs |-> "off"]
  /\ gone = [x \in Ctxs |-> {}]
  /\ ops = [x \in Ctxs |-> 0]
  /\ act = [a |-> "init"]

Join(x) ==
  /\ st[x] = "off"
  /\ st' = [st EXCEPT ![x] = "on"]
  /\ cs' = [cs EXCEPT ![x] = AddParticipant(@, [part |-> x, enclave |-> ""]).c]
  /\ act' = [a |-> "join", x |-> x]
  /\ UNCHANGED <<ann, got, gone, ops>>

InBounds(c, x) ==
  /\ Len(Nodes(c, x)) <= MaxNodes
  /\ \A i \in 1..Len(Nodes(c, x)) : Len(Nodes(c, x)[i].r) <= MaxGids /\ Len(Nodes(c, x)[i].w) <= MaxGids

Local(x, e, ok) ==
  /\ st[x] = "on" /\ ops[x] < MaxOps
  /\ ok \/ MayFail
  /\ CtxDefined(cs[x], x, e)
  /\ LET r == CtxApply(cs[x], x, e, ok) IN
       /\ InBounds(CtxEdit(cs[x], x, e), x)
       /\ cs' = [cs EXCEPT ![x] = r.c]
       /\ ann' = IF r.ok THEN [ann EXCEPT ![x] = Append(@, r.msg)] ELSE ann
  /\ ops' = [ops EXCEPT ![x] = @ + 1]
  /\ act' = [a |-> "op", x |-> x, e |-> e, ok |-> ok]
  /\ UNCHANGED <<got, st, gone>>

(* the middleware tells x that s exists; announcements may well arrive earlier *)
Discover(x, s) ==
  /\ st[x] = "on" /\ st[s] = "on" /\ x # s /\ s \notin DOMAIN cs[x].p
  /\ cs' = [cs EXCEPT ![x] = AddParticipant(@, [part |-> s, enclave |-> ""]).c]
  /\ act' = [a |-> "disc", x |-> x, s |-> s]
  /\ UNCHANGED <<ann, got, st, gone, ops>>

Deliver(x, s, k) ==
  /\ st[x] = "on" /\ st[s] \in {"on", "left"} /\ x # s /\ s \notin gone[x]
  /\ k \in (got[x][s] + 1)..Len(ann[s])
  /\ cs' = [cs EXCEPT ![x] = Update(@, ann[s][k])]
  /\ got' = [got EXCEPT ![x][s] = k]
  /\ act' = [a |-> "del", x |-> x, s |-> s, k |-> k]
  /\ UNCHANGED <<ann, st, gone, ops>>

Leave(s) ==
  /\ MayLeave /\ st[s] = "on"
  /\ st' = [st EXCEPT ![s] = "left"]
  /\ act' = [a |-> "leave", x |-> s]
  /\ UNCHANGED <<cs, ann, got, gone, ops>>

(* x is told that s is gone: for good, or (MayLose) only until it is found again, when the *)
(* middleware hands x the latest announcement once more                                    *)
Depart(x, s) ==
  /\ st[x] = "on" /\ x # s /\ s \notin gone[x]
  /\ \/ st[s] = "left" /\ gone' = [gone EXCEPT ![x] = @ \cup {s}]
     \/ MayLose /\ st[s] = "on" /\ s \in DOMAIN cs[x].p /\ gone' = gone
  /\ cs' = [cs EXCEPT ![x] = RemoveParticipant(@, [part |-> s]).c]
  /\ got' = [got EXCEPT ![x][s] = IF Len(ann[s]) = 0 THEN 0
                                  ELSE IF @ < Len(ann[s]) THEN @ ELSE Len(ann[s]) - 1]
  /\ act' = [a |-> "rmp", x |-> x, s |-> s]
  /\ UNCHANGED <<ann, st, ops>>

Es == {[what |-> w, name |-> n, ns |-> "/", gw |-> g, gr |-> "gr"] : w \in Whats, n \in Names, g \in Gids}
Next ==
  \/ \E x \in Ctxs : Join(x) \/ Leave(x)
  \/ \E x \in Ctxs, e \in Es, ok \in BOOLEAN : Local(x, e, ok)
  \/ \E x, s \in Ctxs : Discover(x, s) \/ Depart(x, s)
  \/ \E x, s \in Ctxs, k \in 1..MaxOps : Deliver(x, s, k)

Spec == Init /\ [][Next]_vars
(* the middleware keeps delivering and reports departures; losses do not go on for ever *)
Fair ==
  /\ \A x, s \in Ctxs : SF_vars(\E k \in 1..MaxOps : Deliver(x, s, k) /\ k = Len(ann[s]))
  /\ \A x, s \in Ctxs : WF_vars(Depart(x, s) /\ st[s] = "left")
FairSpec == Spec /\ Fair

Emit == EmitOn => PrintT("EDGE" \o ToJson([i |-> (act.a = "init"), a |-> act', s |-> View, t |-> View']))

(* ------------------------------ properties ------------------------------ *)
On == {x \in Ctxs : st[x] = "on"}
(* a removal whose announcement failed leaves the last announcement behind the state *)
Clean(s) ==
  IF ann[s] = <<>> THEN Nodes(cs[s], s) = <<>>
  ELSE SameNodes(ann[s][Len(ann[s])].nodes, Nodes(cs[s], s))
Announced(s) == {<<>>} \cup {ann[s][i].nodes : i \in 1..Len(ann[s])}

(* what is reported about a remote participant is always something it announced *)
RemoteIsAnnounced == \A x, s \in Ctxs : x # s => Nodes(cs[x], s) \in Announced(s)
(* nobody but the participant itself changes what is held about it locally *)
OwnStateLocal ==
  [][ \A x \in Ctxs : Nodes(cs'[x], x) # Nodes(cs[x], x) => act'.a = "op" /\ act'.x = x ]_vars
(* an announcement goes out exactly with a successful operation and is the state it produced *)
AnnounceEach ==
  [][ \A x \in Ctxs :
        IF act'.a = "op" /\ act'.x = x /\ act'.ok
        THEN /\ Len(ann'[x]) = Len(ann[x]) + 1
             /\ ann'[x][Len(ann'[x])].nodes = Nodes(cs'[x], x)
             /\ ann'[x][Len(ann'[x])].gid = x
        ELSE ann'[x] = ann[x] ]_vars
(* failed additions leave no trace, failed removals stay removed *)
FailureEffect ==
  [][ (act'.a = "op" /\ ~act'.ok) =>
        IF act'.e.what \in CtxAdds THEN cs' = cs
        ELSE cs'[act'.x] = CtxEdit(cs[act'.x], act'.x, act'.e) ]_vars
(* the effect on every reader of announcements is that of the newest one received *)
Settled ==
  \A x \in On :
    /\ \A s \in On : x = s \/ got[x][s] = Len(ann[s])
    /\ \A s \in Ctxs : st[s] = "left" => s \in gone[x]
Agree ==
  \A x \in On :
    /\ \A s \in On : Clean(s) => SameNodes(Nodes(cs[x], s), Nodes(cs[s], s))
    /\ \A s \in Ctxs : st[s] = "left" => s \notin DOMAIN cs[x].p
Converged == Settled => Agree
(* with fair delivery and finitely many operations the graphs agree for ever after some time *)
EventuallyAgree == <>[](Settled /\ Agree)
=============================================================================
