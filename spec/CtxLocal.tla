------------------------------ MODULE CtxLocal ------------------------------
(* The local operations of one context, one at a time, with announcements     *)
(* that can be sent or not, and what a remote graph that hears them all       *)
(* believes.  The statements below are written without reference to how        *)
(* GraphCacheOps!CtxApply computes the outcome.  The transitions are replayed  *)
(* in the real code, with every way in which an announcement can fail.         *)
EXTENDS GraphCacheOps, Json

CONSTANTS Gids, Names, MaxNodes, MaxGids, Pairwise, EmitOn
VARIABLES c,      \* the context's cache
          rem,    \* the nodes the remote graph lists for it
          dirty,  \* removals that were not announced
          act
vars == <<c, rem, dirty, act>>
View == <<c, rem, dirty>>
Me == "me"
Ns == "/"

Start == AddParticipant(EmptyCache, [part |-> Me, enclave |-> ""]).c
Init == c = Start /\ rem = <<>> /\ dirty = FALSE /\ act = [e |-> [what |-> "init"], ok |-> TRUE]

Two == {"add_cli", "rm_cli", "add_srv", "rm_srv"}
One == {"add_pub", "rm_pub", "add_sub", "rm_sub"}
Ops ==
  {[what |-> k, name |-> n, ns |-> Ns, gw |-> CHOOSE g \in Gids : TRUE, gr |-> CHOOSE g \in Gids : TRUE] :
     k \in {"add_node", "rm_node"}, n \in Names}
  \cup {[what |-> k, name |-> n, ns |-> Ns, gw |-> g, gr |-> g] : k \in One, n \in Names, g \in Gids}
  \cup {[what |-> k, name |-> n, ns |-> Ns, gw |-> g[1], gr |-> g[2]] : k \in Two, n \in Names, g \in Pairwise}

InBounds(ns) ==
  /\ Len(ns) <= MaxNodes
  /\ \A i \in 1..Len(ns) : Len(ns[i].r) <= MaxGids /\ Len(ns[i].w) <= MaxGids
Do(e, ok) ==
  /\ CtxDefined(c, Me, e)
  /\ InBounds(CtxApply(c, Me, e, TRUE).msg.nodes)
  /\ LET a == CtxApply(c, Me, e, ok)
     IN /\ c' = a.c
        /\ rem' = IF ok THEN a.msg.nodes ELSE rem
        /\ dirty' = (~ok /\ (dirty \/ a.c # c))
        /\ act' = [e |-> e, ok |-> ok]
Next == \E e \in Ops, ok \in BOOLEAN : Do(e, ok)
Spec == Init /\ [][Next]_vars
Emit == EmitOn => PrintT("EDGE" \o ToJson([i |-> (c = Start /\ rem = <<>> /\ ~dirty), a |-> act', s |-> View, t |-> View']))

Local(x) == Nodes(x, Me)
E == act'.e
First(s, n) == CHOOSE i \in 1..Len(s) : s[i].name = n /\ \A j \in 1..i - 1 : s[j].name # n
Occ(s, i, side, g) == Occurs(IF side = "w" THEN s[i].w ELSE s[i].r, g)
Touched(what) == IF what \in Two THEN {"r", "w"}
                 ELSE IF what \in {"add_pub", "rm_pub"} THEN {"w"}
                 ELSE IF what \in {"add_sub", "rm_sub"} THEN {"r"} ELSE {}
Delta(what) == IF what \in {"add_pub", "add_sub", "add_cli", "add_srv"} THEN 1 ELSE -1

(* C11 *)
AdditionUndone == [][ (~act'.ok /\ E.what \in CtxAdds) => c' = c /\ rem' = rem ]_vars
RemovalKept ==
  [][ (~act'.ok /\ E.what \in CtxRems) =>
        /\ rem' = rem
        /\ (E.what = "rm_node" => Len(Local(c')) = Len(Local(c)) - 1)
        /\ (E.what # "rm_node" =>
              LET i == First(Local(c), E.name) IN
              \A s \in Touched(E.what) :
                LET g == IF s = "w" THEN E.gw ELSE E.gr
                    before == Occ(Local(c), i, s, g)
                IN Occ(Local(c'), i, s, g) = (IF before = 0 THEN 0 ELSE before - 1)) ]_vars
(* the next announcement that is sent repairs every difference *)
CaughtUp == [][ act'.ok => rem' = Local(c') /\ ~dirty' ]_vars
InStepUnlessDirty == ~dirty => rem = Local(c)
(* C10: what a successful operation does, and to nothing else *)
SuccessIsExact ==
  [][ (act'.ok /\ E.what \notin {"add_node", "rm_node"}) =>
        LET i == First(Local(c), E.name)
            old == Local(c)
            new == Local(c')
        IN /\ Len(new) = Len(old)
           /\ \A j \in 1..Len(old) : j # i => new[j] = old[j]
           /\ \A s \in {"r", "w"}, g \in Gids :
                LET mine == s \in Touched(E.what) /\ g = (IF s = "w" THEN E.gw ELSE E.gr)
                    b == Occ(old, i, s, g)
                IN Occ(new, i, s, g) = IF ~mine THEN b
                                       ELSE IF Delta(E.what) = 1 THEN b + 1
                                       ELSE IF b = 0 THEN 0 ELSE b - 1 ]_vars
NodesExact ==
  [][ /\ (act'.ok /\ E.what = "add_node") => /\ Len(Local(c')) = Len(Local(c)) + 1
                                              /\ SubSeq(Local(c'), 1, Len(Local(c))) = Local(c)
      /\ (E.what = "rm_node") =>
           LET i == First(Local(c), E.name) IN
           \A j \in 1..Len(Local(c')) : Local(c')[j] = Local(c)[IF j < i THEN j ELSE j + 1] ]_vars
(* adding and removing the same entity again leaves no trace, whether announced or not *)
Inverse(what) == CASE what = "add_pub" -> "rm_pub" [] what = "add_sub" -> "rm_sub"
                   [] what = "add_cli" -> "rm_cli" [] what = "add_srv" -> "rm_srv"
AddRemoveNeutral ==
  \A e \in Ops : (e.what \in CtxAdds \ {"add_node"} /\ CtxDefined(c, Me, e)) =>
    LET a == CtxApply(c, Me, e, TRUE).c
        b == CtxApply(a, Me, [e EXCEPT !.what = Inverse(e.what)], FALSE).c
    IN SameNodes(Local(b), Local(c))
TypeOK == c.r = EmptyCache.r /\ c.w = EmptyCache.w /\ DOMAIN c.p = {Me}
=============================================================================
