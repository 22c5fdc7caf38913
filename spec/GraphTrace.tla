----------------------------- MODULE GraphTrace -----------------------------
(* Accepts exactly the recorded executions of the real graph cache / context *)
(* (harness/graph_driver.cpp) that are behaviours of GraphCacheOps.          *)
(*                                                                           *)
(* Each event is one public call with its arguments and everything it let    *)
(* the caller see.  The state is a function of the calls alone; the recorded *)
(* results are then compared with the ones the specification allows.  Focus  *)
(* selects which results are compared, so that the check of one property     *)
(* reports only that property.                                               *)
EXTENDS GraphCacheOps, LedgerOps, Json, TLC, IOUtils

CONSTANT Focus

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES l,     \* position of the next event
          cs,    \* caches, one per context
          me,    \* participant id of each context
          ann    \* announcements each context has sent, in order
vars == <<l, cs, me, ann>>

Chk(aspect, cond) ==
  IF aspect \notin Focus THEN TRUE
  ELSE IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", l, aspect>>) /\ FALSE
ChkL(aspect, what, cond) ==
  IF aspect \notin Focus THEN TRUE
  ELSE IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", l, aspect, what>>) /\ FALSE

Clean(q) == ChkL("leak", "caller's allocator balanced", q.live = 0 /\ q.badfree = 0)

(* what one callback-relevant call must have notified *)
CbOK(c, e, chg) == e.cb = (IF chg /\ c.cb # 0 THEN <<c.cb>> ELSE <<>>)
(* context operations are compositions of changes *)
CtxCbOK(c, e, changed) ==
  IF c.cb = 0 THEN e.cb = <<>>
  ELSE /\ \A i \in 1..Len(e.cb) : e.cb[i] = c.cb
       /\ changed => Len(e.cb) >= 1

ObsOK(c, o) ==
  /\ ("cw" \in DOMAIN o) => \A i \in 1..Len(o.cw) :
       /\ ChkL("cnt", "writer count", o.cw[i][2].ret = 0 /\ o.cw[i][2].val = Count(c, "w", o.cw[i][1]))
       /\ ChkL("cnt", "reader count", o.cr[i][2].ret = 0 /\ o.cr[i][2].val = Count(c, "r", o.cr[i][1]))
  /\ ("iw" \in DOMAIN o) => \A i \in 1..Len(o.iw) :
       /\ ChkL("ids", "writers listed", o.iw[i][2].ret = 0 /\ InfoIdsOK(c, "w", o.iw[i][1], o.iw[i][2].val))
       /\ ChkL("ids", "readers listed", o.ir[i][2].ret = 0 /\ InfoIdsOK(c, "r", o.ir[i][1], o.ir[i][2].val))
       /\ ChkL("info", "writer info", o.iw[i][2].ret = 0 /\ InfoOK(c, "w", o.iw[i][1], o.dy, o.iw[i][2].val))
       /\ ChkL("info", "reader info", o.ir[i][2].ret = 0 /\ InfoOK(c, "r", o.ir[i][1], o.dy, o.ir[i][2].val))
       /\ Clean(o.iw[i][2]) /\ Clean(o.ir[i][2])
  /\ ("names" \in DOMAIN o) =>
       /\ ChkL("nodes", "names", o.names.ret = 0 /\ NamesOK(c, o.names.val, TRUE))
       /\ ChkL("nodes", "names without enclaves", o.names2.ret = 0 /\ NamesOK(c, o.names2.val, FALSE))
       /\ ChkL("nodes", "number", o.num.val = Cardinality(NodeList(c)))
       /\ Clean(o.names) /\ Clean(o.names2)
  /\ ("nt" \in DOMAIN o) =>
       /\ ChkL("nt", "all", o.nt.ret = 0 /\ NtOK(AllPairs(c), o.dt, o.dy, o.nt.val))
       /\ Clean(o.nt)
  /\ ("bn" \in DOMAIN o) => \A i \in 1..Len(o.bn) :
       /\ ChkL("bynode", "writers", ByNodeOK(c, "w", o.bn[i].name, o.bn[i].ns, o.dt, o.dy, o.bn[i].w.ret, o.bn[i].w.val))
       /\ ChkL("bynode", "readers", ByNodeOK(c, "r", o.bn[i].name, o.bn[i].ns, o.dt, o.dy, o.bn[i].r.ret, o.bn[i].r.val))
       /\ Clean(o.bn[i].w) /\ Clean(o.bn[i].r)
  /\ ("dump" \in DOMAIN o) => Chk("dump", DumpOK(c, o.dump))

(* what was asked for from inside a notification shows the graph after the change *)
ProbeOK(c, e) ==
  ("probe" \in DOMAIN e) =>
    \A i \in 1..Len(e.probe) :
      ChkL("cb", "notified after the change",
           /\ e.probe[i].w = Count(c, "w", e.ptopic) /\ e.probe[i].r = Count(c, "r", e.ptopic)
           /\ e.probe[i].n = Cardinality(NodeList(c)))

(* the answer of one query q = <<kind, args...>> with return code ret and value v *)
AnswerOK(c, q, ret, v) ==
  CASE q[1] = "cntw" -> ret = 0 /\ v = Count(c, "w", q[2])
    [] q[1] = "cntr" -> ret = 0 /\ v = Count(c, "r", q[2])
    [] q[1] = "num" -> v = Cardinality(NodeList(c))
    [] q[1] = "names" -> ret = 0 /\ NamesOK(c, v, TRUE)
    [] q[1] = "names2" -> ret = 0 /\ NamesOK(c, v, FALSE)
    [] q[1] = "infow" -> ret = 0 /\ InfoOK(c, "w", q[2], q[3], v)
    [] q[1] = "infor" -> ret = 0 /\ InfoOK(c, "r", q[2], q[3], v)
    [] q[1] = "nt" -> ret = 0 /\ NtOK(AllPairs(c), q[2], q[3], v)
    [] q[1] = "ntw" -> ByNodeOK(c, "w", q[4], q[5], q[2], q[3], ret, v)
    [] q[1] = "ntr" -> ByNodeOK(c, "r", q[4], q[5], q[2], q[3], ret, v)

(* the books of the caller's allocator: at position `at` of the log the query returned *)
LedgerOK(r) ==
  LET atRet == Books(Fresh, SubSeq(r.log, 1, r.at))
  IN ReturnOK(atRet, r.ret) /\ ClosedOK(Books(atRet, SubSeq(r.log, r.at + 1, Len(r.log))))

(* a query whose allocations were made to fail *)
FaultOK(c, e) ==
  /\ ChkL("fault", "undisturbed answer", AnswerOK(c, e.q, e.res.ret, e.res.val))
  /\ ChkL("fault", "undisturbed balance", e.res.live = 0 /\ e.res.badfree = 0 /\ LedgerOK(e.res))
  /\ \A i \in 1..Len(e.res.runs) :
       LET r == e.res.runs[i] IN
         /\ ChkL("fault", <<"error reported", r.k, r.rest>>, r.refused > 0 => r.ret \notin {0, 203})
         /\ ChkL("fault", <<"success means full answer", r.k, r.rest>>, r.ret = 0 => r.same)
         /\ ChkL("fault", <<"everything released", r.k, r.rest>>, r.live = 0 /\ r.badfree = 0)
         /\ ChkL("fault", <<"books balanced", r.k, r.rest>>, ("log" \in DOMAIN r) => LedgerOK(r))
         /\ ChkL("fault", <<"outputs refer to nothing after an error", r.k, r.rest>>, r.empty)
         /\ ChkL("fault", <<"usable afterwards", r.k, r.rest>>, r.again /\ r.live2 = 0)
BadArgOK(e) ==
  \A i \in 1..Len(e.cases) :
    ChkL("fault", <<"invalid argument", e.cases[i].case>>,
         e.cases[i].ret = 11 /\ e.cases[i].untouched /\ e.cases[i].live = 0)

(* ------------------------------------------------------------------------ *)
Init == l = 1 /\ cs = <<>> /\ me = <<>> /\ ann = <<>>

Ev == Trace[l]

Reset ==
  /\ Ev.op = "reset"
  /\ cs' = [i \in 1..Ev.n |-> EmptyCache]
  /\ me' = Ev.gids
  /\ ann' = [i \in 1..Ev.n |-> <<>>]

CacheOps == {"add", "rm", "addp", "rmp", "upd", "relay", "addn", "rmn", "asw", "dsw",
             "asr", "dsr", "setcb", "clearcb"}
(* call e on a cache holding c; a is what it should do *)
CacheOK(c, e, a) ==
  /\ Defined(c, e)      \* the script only makes defined calls
  /\ e.op \in {"add", "rm"} => Chk("ret", e.ret = a.ret)
  /\ e.op = "rmp" => Chk("rmpret", e.ret = a.ret)
  /\ e.op \in {"addn", "rmn", "asw", "dsw", "asr", "dsr"} =>
       Chk("msg", SameMsg(e.msg, Snapshot(a.c, e.part)))
  /\ e.op \in {"upd", "relay"} => Chk("msg", e.intact)
  /\ Chk("cb", CbOK(c, e, a.chg))
  /\ ProbeOK(a.c, e)
CacheOp ==
  /\ Ev.op \in CacheOps
  /\ LET a == Apply(cs[Ev.c], Ev)
     IN CacheOK(cs[Ev.c], Ev, a) /\ cs' = [cs EXCEPT ![Ev.c] = a.c]
  /\ UNCHANGED <<me, ann>>

(* the announcements that really went out *)
Sent(pubs) ==
  LET ok(x) == x.ok
      y == SelectSeq(pubs, ok)
  IN [i \in 1..Len(y) |-> y[i].msg]
(* call e of a context with participant m, holding c *)
CtxOK(c, m, e, a) ==
  LET sent == {i \in 1..Len(e.pubs) : e.pubs[i].ok}
  IN /\ CtxDefined(c, m, e)
     /\ IF e.mode = "ok"
        THEN /\ ChkL("pub", "one announcement", Len(e.pubs) = 1 /\ e.rightpub)
             /\ ChkL("pub", "announcement content", SameMsg(e.pubs[1].msg, a.msg))
             /\ ChkL("pub", "success", e.ret = 0)
        ELSE /\ ChkL("failpub", "error reported", e.ret # 0)
             /\ ChkL("failpub", "nothing sent", sent = {})
             /\ ChkL("pub", "content offered", \A i \in 1..Len(e.pubs) : SameMsg(e.pubs[i].msg, a.msg))
     /\ Chk("ctxcb", CtxCbOK(c, e, a.c # c))
CtxOp ==
  /\ Ev.op = "ctx"
  /\ LET a == CtxApply(cs[Ev.c], me[Ev.c], Ev, Ev.mode = "ok")
     IN /\ CtxOK(cs[Ev.c], me[Ev.c], Ev, a)
        /\ cs' = [cs EXCEPT ![Ev.c] = a.c]
        /\ ann' = [ann EXCEPT ![Ev.c] = @ \o Sent(Ev.pubs)]
  /\ UNCHANGED me

(* A round of calls that leaves everything as it was, gone through n times over.  Of what the  *)
(* calls answered the first round is recorded, and the first one that was answered otherwise. *)
RECURSIVE RoundOK(_, _, _)
RoundOK(c, m, s) ==      \* <<was it allowed, cache afterwards>>
  IF s = <<>> THEN <<TRUE, c>>
  ELSE LET e == Head(s)
           a == IF e.op = "ctx" THEN CtxApply(c, m, e, e.mode = "ok") ELSE Apply(c, e)
           ok == IF e.op = "ctx" THEN CtxOK(c, m, e, a) ELSE CacheOK(c, e, a)
       IN IF ok THEN RoundOK(a.c, m, Tail(s)) ELSE <<FALSE, c>>
Churn ==
  /\ Ev.op = "churn"
  /\ LET r == RoundOK(cs[Ev.c], me[Ev.c], Ev.steps)
     IN r[1] /\ Assert(r[2] = cs[Ev.c], "a round that changes something")
  /\ ("odd" \in DOMAIN Ev) => RoundOK(cs[Ev.c], me[Ev.c], Ev.odd)[1]
  /\ UNCHANGED <<cs, me, ann>>

(* an announcement of another context arrives; what arrives is what was recorded there *)
Deliver ==
  /\ Ev.op = "deliver"
  /\ ChkL("conv", "was announced",
          ~Ev.none => Ev.k \in 1..Len(ann[Ev.from]) /\ SameMsg(Ev.msg, ann[Ev.from][Ev.k]))
  /\ ChkL("msg", "argument untouched", Ev.intact)
  /\ IF Ev.none THEN cs' = cs
     ELSE LET a == Apply(cs[Ev.c], [op |-> "upd", msg |-> Ev.msg])
          IN Chk("cb", CbOK(cs[Ev.c], Ev, TRUE)) /\ cs' = [cs EXCEPT ![Ev.c] = a.c]
  /\ UNCHANGED <<me, ann>>

Observe ==
  /\ Ev.op = "obs" /\ ObsOK(cs[Ev.c], Ev.o)
  /\ Chk("cb", Ev.cb = <<>>)
  /\ UNCHANGED <<cs, me, ann>>
Query ==
  /\ Ev.op = "q" /\ ChkL("query", Ev.q, AnswerOK(cs[Ev.c], Ev.q, Ev.res.ret, Ev.res.val))
  /\ Clean(Ev.res)
  /\ Chk("cb", Ev.cb = <<>>)
  /\ UNCHANGED <<cs, me, ann>>
Fault ==
  /\ Ev.op = "qf" /\ FaultOK(cs[Ev.c], Ev) /\ UNCHANGED <<cs, me, ann>>
  /\ Chk("cb", Ev.cb = <<>>)
BadArg ==
  /\ Ev.op = "badarg" /\ BadArgOK(Ev) /\ UNCHANGED <<cs, me, ann>>

(* All announcements of the contexts `live` were delivered everywhere and the departed *)
(* participants `gone` were removed: the graphs agree.                                   *)
Quiescent ==
  /\ Ev.op = "quiescent"
  /\ \A j \in SeqRange(Ev.live) :
       /\ ChkL("conv", <<"departed participants gone", j>>, SeqRange(Ev.gone) \cap DOMAIN cs[j].p = {})
       /\ \A k \in SeqRange(Ev.live) :
            ChkL("conv", <<"agreement", j, k>>, SameNodes(Nodes(cs[j], me[k]), Nodes(cs[k], me[k])))
  /\ UNCHANGED <<cs, me, ann>>

Next == /\ l <= Len(Trace)
        /\ (Reset \/ CacheOp \/ CtxOp \/ Churn \/ Deliver \/ Observe \/ Query \/ Fault \/ BadArg \/ Quiescent)
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars

TraceAccepted ==
  IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
  ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter, Len(Trace)>>) /\ FALSE
=============================================================================
