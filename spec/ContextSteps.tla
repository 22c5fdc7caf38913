---------------------------- MODULE ContextSteps ----------------------------
(* The steps inside one context: threads running local operations (lock,     *)
(* edit the graph once or twice, announce, withdraw if that failed, unlock)  *)
(* next to discovery calls and queries of the same graph cache.  Checked     *)
(* against the atomic description of GraphCacheOps!CtxApply, which is also    *)
(* what LinTrace holds the real code against.                                *)
(* UseN / UseG switch the two locks on; with either off TLC must find a      *)
(* counterexample (the check makes sure it does).                            *)
EXTENDS GraphCacheOps

CONSTANTS Threads, Works, MaxCalls, UseN, UseG

VARIABLES c,      \* the cache
          ver,    \* changes made to it so far
          n, g,   \* holders of the node update lock and of the graph lock, 0 if free
          pc,     \* thread -> [at, w, todo, snap, seen]
          calls,  \* calls begun
          ann,    \* announcements sent
          eff     \* what the sequence of announced operations amounts to
vars == <<c, ver, n, g, pc, calls, ann, eff>>

Me == "me"
Idle == [at |-> "idle", w |-> [k |-> "none"], todo |-> <<>>, snap |-> <<>>, seen |-> -1, half |-> FALSE]

Start == AddNode(AddParticipant(EmptyCache, [part |-> Me, enclave |-> ""]).c, Me, "n1", "/")
Init ==
  /\ c = Start /\ ver = 0 /\ n = 0 /\ g = 0
  /\ pc = [t \in Threads |-> Idle]
  /\ calls = 0 /\ ann = <<>> /\ eff = Nodes(Start, Me)

(* a work item: k = "ctx" with e and ok, "disc" (another participant announces) or "query" *)
Edits(e) ==
  CASE e.what = "add_node" -> <<"addn">> [] e.what = "rm_node" -> <<"rmn">>
    [] e.what = "add_pub" -> <<"asw">> [] e.what = "rm_pub" -> <<"dsw">>
    [] e.what = "add_cli" -> <<"asw", "asr">> [] e.what = "rm_cli" -> <<"dsw", "dsr">>
    [] e.what = "add_srv" -> <<"asr", "asw">> [] e.what = "rm_srv" -> <<"dsr", "dsw">>
Undo(e) ==
  CASE e.what = "add_node" -> <<"popn">> [] e.what = "add_pub" -> <<"dsw">>
    [] e.what = "add_cli" -> <<"dsr", "dsw">> [] e.what = "add_srv" -> <<"dsw", "dsr">>
    [] OTHER -> <<>>
Edit(x, e, k) ==
  CASE k = "addn" -> AddNode(x, Me, e.name, e.ns)
    [] k = "rmn" -> IF HasNode(x, Me, e.name, e.ns) THEN RemoveNode(x, Me, e.name, e.ns) ELSE x
    [] k = "popn" -> SetNodes(x, Me, SubSeq(Nodes(x, Me), 1, Len(Nodes(x, Me)) - 1))
    [] k = "asw" -> AssocW(x, e.gw, Me, e.name, e.ns)
    [] k = "dsw" -> DissocW(x, e.gw, Me, e.name, e.ns)
    [] k = "asr" -> AssocR(x, e.gr, Me, e.name, e.ns)
    [] k = "dsr" -> DissocR(x, e.gr, Me, e.name, e.ns)

Set(t, r) == pc' = [pc EXCEPT ![t] = r]

Begin(t) ==
  /\ pc[t].at = "idle" /\ calls < MaxCalls
  /\ \E w \in Works :
       Set(t, [Idle EXCEPT !.at = IF w.k = "ctx" THEN "wantN" ELSE "wantG", !.w = w,
                           !.todo = IF w.k = "ctx" THEN Edits(w.e) ELSE <<w.k>>])
  /\ calls' = calls + 1
  /\ UNCHANGED <<c, ver, n, g, ann, eff>>
LockN(t) ==
  /\ pc[t].at = "wantN" /\ (UseN => n = 0)
  /\ n' = IF UseN THEN t ELSE n
  /\ IF pc[t].w.e.what = "rm_node" /\ ~HasNode(c, Me, pc[t].w.e.name, pc[t].w.e.ns)
     THEN Set(t, [pc[t] EXCEPT !.at = "unlockN"])   \* callers only remove what exists
     ELSE Set(t, [pc[t] EXCEPT !.at = "wantG"])
  /\ UNCHANGED <<c, ver, g, calls, ann, eff>>
LockG(t) ==
  /\ pc[t].at = "wantG" /\ (UseG => g = 0)
  /\ g' = IF UseG THEN t ELSE g
  /\ Set(t, [pc[t] EXCEPT !.at = "in"])
  /\ UNCHANGED <<c, ver, n, calls, ann, eff>>
(* the inside of a critical section: read the state, then write what follows from it *)
Read(t) ==
  /\ pc[t].at = "in"
  /\ Set(t, [pc[t] EXCEPT !.at = "mid", !.snap = Nodes(c, Me), !.seen = ver])
  /\ UNCHANGED <<c, ver, n, g, calls, ann, eff>>
Write(t) ==
  /\ pc[t].at = "mid"
  /\ LET k == Head(pc[t].todo)
         base == SetNodes(c, Me, pc[t].snap)     \* computed from what was read
         x == CASE k = "query" -> c
                [] k = "disc" -> Update(c, [gid |-> "p2", nodes |-> <<NewNode("r", "/")>>])
                [] OTHER -> Edit(base, pc[t].w.e, k)
     IN /\ c' = x
        /\ ver' = IF k = "query" THEN ver ELSE ver + 1
        /\ Set(t, [pc[t] EXCEPT !.at = "leaveG", !.todo = Tail(@), !.snap = Nodes(x, Me),
                                !.half = IF k = "query" THEN pc[t].seen # ver ELSE FALSE])
  /\ UNCHANGED <<n, g, calls, ann, eff>>
LeaveG(t) ==
  /\ pc[t].at = "leaveG"
  /\ g' = IF UseG THEN 0 ELSE g
  /\ Set(t, [pc[t] EXCEPT !.at =
       IF pc[t].w.k # "ctx" THEN "done"
       ELSE IF pc[t].todo # <<>> THEN "wantG"
       ELSE IF pc[t].seen = -2 THEN "unlockN" ELSE "pub"])
  /\ UNCHANGED <<c, ver, n, calls, ann, eff>>
Abstract(e, ok) == CtxApply(SetNodes(c, Me, eff), Me, e, ok).c
Publish(t) ==
  /\ pc[t].at = "pub"
  /\ LET w == pc[t].w
         u == IF w.ok THEN <<>> ELSE Undo(w.e)
     IN /\ ann' = IF w.ok THEN Append(ann, pc[t].snap) ELSE ann
        /\ eff' = Nodes(Abstract(w.e, w.ok), Me)
        /\ Set(t, [pc[t] EXCEPT !.at = IF u = <<>> THEN "unlockN" ELSE "undoG", !.todo = u])
  /\ UNCHANGED <<c, ver, n, g, calls>>
(* withdrawing takes the graph lock once per edit as well *)
UndoG(t) ==
  /\ pc[t].at = "undoG" /\ (UseG => g = 0)
  /\ c' = Edit(c, pc[t].w.e, Head(pc[t].todo))
  /\ ver' = ver + 1
  /\ Set(t, [pc[t] EXCEPT !.todo = Tail(@), !.at = IF Len(pc[t].todo) = 1 THEN "unlockN" ELSE "undoG"])
  /\ UNCHANGED <<n, g, calls, ann, eff>>
UnlockN(t) ==
  /\ pc[t].at = "unlockN"
  /\ n' = IF UseN THEN 0 ELSE n
  /\ Set(t, [pc[t] EXCEPT !.at = "done"])
  /\ UNCHANGED <<c, ver, g, calls, ann, eff>>
Return(t) ==
  /\ pc[t].at = "done" /\ Set(t, Idle)
  /\ UNCHANGED <<c, ver, n, g, calls, ann, eff>>

Step(t) == LockN(t) \/ LockG(t) \/ Read(t) \/ Write(t) \/ LeaveG(t) \/ Publish(t) \/ UndoG(t)
           \/ UnlockN(t) \/ Return(t)
Next == \E t \in Threads : Begin(t) \/ Step(t)
Spec == Init /\ [][Next]_vars
Fair == \A t \in Threads : SF_vars(LockN(t)) /\ SF_vars(LockG(t)) /\ SF_vars(UndoG(t)) /\ WF_vars(Step(t))
FairSpec == Spec /\ Fair

(* ------------------------------ properties ------------------------------ *)
Active(t) == pc[t].at \notin {"idle", "done"}
Ctxs == {t \in Threads : pc[t].w.k = "ctx"}
(* what is announced is the state at that moment, hence never older than what was announced *)
(* before, and whole operations only                                                        *)
AnnounceIsState == [][ ann' # ann => SameNodes(ann'[Len(ann')], Nodes(c, Me)) ]_vars
Balanced(nodes) ==
  \A i \in 1..Len(nodes) : Occurs(nodes[i].w, "cw") = Occurs(nodes[i].r, "cr")
WholeOperations == \A i \in 1..Len(ann) : Balanced(ann[i])
(* whenever no local operation is under way the graph is what the operations amount to *)
StateIsSequence == (\A t \in Ctxs : ~Active(t)) => SameNodes(Nodes(c, Me), eff)
(* a query saw one state *)
QueriesWhole == \A t \in Threads : ~pc[t].half
(* nothing is ever stuck: a call under way can go on, or waits for one that can *)
NoDeadlock == (\E t \in Threads : Active(t)) => \E t \in Threads : ENABLED Step(t)
MutualExclusion ==
  Cardinality({t \in Threads : pc[t].at \in {"in", "mid", "leaveG"}}) <= 1
EveryCallReturns == \A t \in Threads : (pc[t].at # "idle") ~> (pc[t].at = "idle")
=============================================================================
