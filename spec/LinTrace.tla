------------------------------ MODULE LinTrace ------------------------------
(* Accepts exactly the recorded concurrent histories of one context that can *)
(* be explained by executing its operations one at a time.                   *)
(*                                                                           *)
(* A cache update or a query takes effect in one step between its call and   *)
(* its return; if it is notified, the notification is that step.  A context  *)
(* operation takes effect in its edits (two for clients and services), which *)
(* other cache calls may observe one by one, then its announcement, then, if *)
(* announcing failed, the withdrawal of an addition.  From its first edit to *)
(* its announcement or withdrawal no other context operation takes effect:   *)
(* so the announcements, in the order sent, are the successive states.       *)
(* Which calls are pending and how far they have got is the only hidden      *)
(* state; TLC searches for an explanation.                                   *)
EXTENDS GraphCacheOps, Json, TLC, IOUtils

CONSTANT Focus

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES l,      \* position of the next event
          c,      \* the cache
          me,     \* participant id of the context
          pend,   \* thread -> [i: its call's event, st: stage]  (0 if none)
          own     \* thread whose context operation is taking effect, 0 if none
vars == <<l, c, me, pend, own>>

Threads == 1..4
None == [i |-> 0, st |-> "none", left |-> {}, undo |-> {}]
Ev == Trace[l]
Call(t) == Trace[pend[t].i].call
Busy(t) == pend[t].i # 0

(* the two edits of an operation on a client or service *)
Pairs2 == {"add_cli", "rm_cli", "add_srv", "rm_srv"}
EditsOf(e) ==
  CASE e.what = "add_node" -> {"addn"}
    [] e.what = "rm_node" -> {"rmn"}
    [] e.what = "add_pub" -> {"asw"}
    [] e.what = "rm_pub" -> {"dsw"}
    [] e.what = "add_sub" -> {"asr0"}
    [] e.what = "rm_sub" -> {"dsr0"}
    [] e.what \in {"add_cli", "add_srv"} -> {"asw", "asr"}
    [] e.what \in {"rm_cli", "rm_srv"} -> {"dsw", "dsr"}
UndoOf(e) ==
  CASE e.what = "add_node" -> {"popn"}
    [] e.what = "add_pub" -> {"dsw"}
    [] e.what = "add_sub" -> {"dsr0"}
    [] e.what \in {"add_cli", "add_srv"} -> {"dsw", "dsr"}
    [] OTHER -> {}
Edit(x, e, k) ==
  CASE k = "addn" -> AddNode(x, me, e.name, e.ns)
    [] k = "rmn" -> RemoveNode(x, me, e.name, e.ns)
    [] k = "popn" -> SetNodes(x, me, SubSeq(Nodes(x, me), 1, Len(Nodes(x, me)) - 1))
    [] k = "asw" -> AssocW(x, e.gw, me, e.name, e.ns)
    [] k = "dsw" -> DissocW(x, e.gw, me, e.name, e.ns)
    [] k = "asr" -> AssocR(x, e.gr, me, e.name, e.ns)
    [] k = "dsr" -> DissocR(x, e.gr, me, e.name, e.ns)
    [] k = "asr0" -> AssocR(x, e.gw, me, e.name, e.ns)
    [] k = "dsr0" -> DissocR(x, e.gw, me, e.name, e.ns)

AnswerOK(x, q, ret, v) ==
  CASE q[1] = "cntw" -> ret = 0 /\ v = Count(x, "w", q[2])
    [] q[1] = "cntr" -> ret = 0 /\ v = Count(x, "r", q[2])
    [] q[1] = "num" -> v = Cardinality(NodeList(x))
    [] q[1] = "names" -> ret = 0 /\ NamesOK(x, v, TRUE)
    [] q[1] = "names2" -> ret = 0 /\ NamesOK(x, v, FALSE)
    [] q[1] = "infow" -> ret = 0 /\ InfoOK(x, "w", q[2], q[3], v)
    [] q[1] = "infor" -> ret = 0 /\ InfoOK(x, "r", q[2], q[3], v)
    [] q[1] = "nt" -> ret = 0 /\ NtOK(AllPairs(x), q[2], q[3], v)
    [] q[1] = "ntw" -> ByNodeOK(x, "w", q[4], q[5], q[2], q[3], ret, v)
    [] q[1] = "ntr" -> ByNodeOK(x, "r", q[4], q[5], q[2], q[3], ret, v)
    [] q[1] = "dump" -> DumpOK(x, v)

EditKinds == {"addn", "rmn", "asw", "dsw", "asr", "dsr"}
(* what the call returned is what it returns when executed on x *)
ResultOK(x, e) ==
  IF e.op = "q" THEN AnswerOK(x, e.q, e.res.ret, e.res.val)
  ELSE LET a == Apply(x, e) IN
    /\ e.op \in {"add", "rm", "rmp"} => e.ret = a.ret
    /\ e.op \in EditKinds => SameMsg(e.msg, Snapshot(a.c, e.part))
    /\ e.op = "upd" => e.intact
After(x, e) == IF e.op = "q" THEN x ELSE Apply(x, e).c
Notifies(x, e) == IF e.op = "q" THEN FALSE ELSE Apply(x, e).chg /\ x.cb # 0

Init == TLCSet(1, 1) /\ l = 1 /\ c = EmptyCache /\ me = "" /\ pend = [t \in Threads |-> None] /\ own = 0

(* nothing happens silently before it has to: only ahead of a visible effect *)
Demand == Ev.op \in {"ret", "fire", "pub"}

Reset ==
  /\ Ev.op = "reset"
  /\ \A t \in Threads : ~Busy(t)
  /\ c' = EmptyCache /\ me' = Ev.me /\ UNCHANGED <<pend, own>>
Alone ==
  /\ Ev.op = "seq" /\ \A t \in Threads : ~Busy(t)
  /\ LET e == Ev.call IN
       IF e.op = "ctx" THEN c' = CtxApply(c, me, e, e.mode = "ok").c
       ELSE ResultOK(c, e) /\ c' = After(c, e)
  /\ UNCHANGED <<me, pend, own>>
Inv ==
  /\ Ev.op = "inv" /\ ~Busy(Ev.t)
  /\ pend' = [pend EXCEPT ![Ev.t] =
       [i |-> l, st |-> "start",
        left |-> IF Ev.call.op = "ctx" THEN EditsOf(Ev.call) ELSE {},
        undo |-> {}]]
  /\ UNCHANGED <<c, me, own>>

(* a plain call takes effect without notification *)
Effect(t) ==
  /\ Busy(t) /\ pend[t].st = "start" /\ Call(t).op # "ctx"
  /\ Call(t).op # "q" => Defined(c, Call(t))
  /\ ~Notifies(c, Call(t))
  /\ ResultOK(c, Call(t))
  /\ c' = After(c, Call(t))
  /\ pend' = [pend EXCEPT ![t].st = "done"]
  /\ UNCHANGED <<l, me, own>>
(* ... or with its notification *)
FirePlain ==
  /\ Ev.op = "fire" /\ Busy(Ev.t) /\ pend[Ev.t].st = "start" /\ Call(Ev.t).op # "ctx"
  /\ Call(Ev.t).op # "q"
  /\ Defined(c, Call(Ev.t))
  /\ Notifies(c, Call(Ev.t)) /\ Ev.id = c.cb
  /\ ResultOK(c, Call(Ev.t))
  /\ c' = After(c, Call(Ev.t))
  /\ pend' = [pend EXCEPT ![Ev.t].st = "done"]
  /\ UNCHANGED <<me, own>>
FireCtx ==
  /\ Ev.op = "fire" /\ Busy(Ev.t) /\ Call(Ev.t).op = "ctx"
  /\ UNCHANGED <<c, me, pend, own>>

CtxEditStep(t) ==
  /\ Busy(t) /\ Call(t).op = "ctx" /\ pend[t].st \in {"start", "edit"}
  /\ own \in {0, t}
  /\ \E k \in pend[t].left :
       /\ c' = Edit(c, Call(t), k)
       /\ pend' = [pend EXCEPT ![t].st = "edit", ![t].left = @ \ {k}]
  /\ own' = t
  /\ UNCHANGED <<l, me>>
Publish ==
  /\ Ev.op = "pub" /\ own = Ev.t /\ Busy(Ev.t)
  /\ pend[Ev.t].st = "edit" /\ pend[Ev.t].left = {}
  /\ SameMsg(Ev.msg, Snapshot(c, me))
  /\ LET u == IF Ev.ok THEN {} ELSE UndoOf(Call(Ev.t)) IN
       /\ pend' = [pend EXCEPT ![Ev.t].st = IF u = {} THEN "done" ELSE "undo", ![Ev.t].undo = u]
       /\ own' = IF u = {} THEN 0 ELSE own
  /\ UNCHANGED <<c, me>>
CtxUndoStep(t) ==
  /\ Busy(t) /\ pend[t].st = "undo"
  /\ \E k \in pend[t].undo :
       /\ c' = Edit(c, Call(t), k)
       /\ LET u == pend[t].undo \ {k} IN
            /\ pend' = [pend EXCEPT ![t].undo = u, ![t].st = IF u = {} THEN "done" ELSE "undo"]
            /\ own' = IF u = {} THEN 0 ELSE own
  /\ UNCHANGED <<l, me>>

RetOK(e) == e.op = "ctx" => ((e.ret = 0) = (e.mode = "ok"))
Return ==
  /\ Ev.op = "ret" /\ Busy(Ev.t) /\ pend[Ev.t].st = "done"
  /\ RetOK(Call(Ev.t))
  /\ pend' = [pend EXCEPT ![Ev.t] = None]
  /\ UNCHANGED <<c, me, own>>

Visible == Reset \/ Alone \/ Inv \/ FirePlain \/ FireCtx \/ Publish \/ Return
Silent == \E t \in Threads : Effect(t) \/ CtxEditStep(t) \/ CtxUndoStep(t)

(* remembers how far any explanation has got *)
Mark == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Next == /\ l <= Len(Trace)
        /\ \/ Visible /\ l' = l + 1
           \/ Demand /\ Silent
Spec == Init /\ [][Next]_vars

TraceAccepted ==
  IF TLCGet(1) = Len(Trace) + 1 THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
  ELSE PrintT(<<"REJECTED", TLCGet(1), Len(Trace)>>) /\ FALSE
=============================================================================
