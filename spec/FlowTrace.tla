----------------------------- MODULE FlowTrace ------------------------------
(* Accepts the recorded creations, discoveries, listings and matches of         *)
(* harness/flow_driver.cpp that answer what FlowOps says.                        *)
EXTENDS FlowOps, Json, IOUtils

CONSTANT Focus
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, st
Ev == Trace[l]
ChkL(aspect, what, cond) ==
  IF aspect \notin Focus THEN TRUE
  ELSE IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", l, aspect, what>>) /\ FALSE

DUnspecified == <<0, 0, 0, 0, 0, 0, 0, 0>>
DBestAvailable == <<0, 0, 9223, 372036, 0, 0, 854, 775806>>
DInfinite == <<0, 0, 9223, 372036, 0, 0, 854, 775807>>
DLongest == <<0, 0, 2147, 483647, 0, 0, 999, 999999>>

(* a type without a hash carries none *)
Carried(h) == IF h.version = 0 THEN [version |-> 0, value |-> [i \in 1..32 |-> 0]] ELSE h

(* a listing names each endpoint discovered on the topic once, as discovered *)
Listed(items, k, side, topic) ==
  LET X == On(k, side, topic)
      ids == {items[i].gid : i \in 1..Len(items)}
  IN /\ Len(items) = Cardinality(X)
     /\ ids = {x[2] : x \in X}
     /\ \A i \in 1..Len(items) :
          LET e == k[<<side, items[i].gid>>]
          IN /\ items[i].prof = e.prof /\ items[i].hash = e.hash /\ items[i].type = e.type
             /\ items[i].kind = side

Reset == Ev.op = "reset" /\ st' = NoFlow(Ev.n)
CreateEv ==
  /\ Ev.op = "create"
  /\ LET c == Ev.c
         a == Asks(Ev.q, Ev.svc)
         out == Resolved(st, c, Ev.side, Ev.topic, Ev.q, Ev.svc)
         wire == OnWire(out)
         K == Profs(st.k[c], On(st.k[c], Other(Ev.side), Ev.topic))
     IN /\ ChkL("flow", "return value", Ev.ret = "OK" /\ Ev.eret = "OK")
        /\ ChkL("flow", "number of queries", Ev.calls = (IF NeedsQuery(a) THEN 1 ELSE 0))
        /\ ChkL("flow", "endpoints resolved against",
                IF NeedsQuery(a) THEN Listed(Ev.seen, st.k[c], Other(Ev.side), Ev.topic) ELSE Ev.seen = <<>>)
        /\ ChkL("flow", "resolved profile", Ev.out = out)
        /\ ChkL("flow", "profile on the wire", Ev.wire = wire)
        /\ ChkL("flow", "verdicts on those discovered",
                /\ Len(Ev.verdicts) = Len(Ev.seen)
                /\ \A i \in 1..Len(Ev.verdicts) :
                     Ev.verdicts[i] = (IF Ev.side = "pub" THEN Verdict(wire, Ev.seen[i].prof)
                                       ELSE Verdict(Ev.seen[i].prof, wire)))
        /\ ChkL("flow", "fits what was discovered",
                IF AllOpen(a) THEN CreatedFits(Ev.side, Ev.wire, K) ELSE TRUE)
        /\ ChkL("flow", "added", Ev.added)
        /\ ChkL("flow", "endpoint list released once", Ev.left = 0 /\ Ev.bad = 0)
        /\ st' = Create(st, c, Ev.side, Ev.gid, Ev.topic, Ev.type, Ev.hash, Ev.q, Ev.svc)
FindEv ==
  /\ Ev.op = "find"
  /\ LET x == <<Ev.side, Ev.gid>>
         h == Carried(st.w[x].hash)
     IN /\ ChkL("flow", "type hash found", Ev.ret = "OK" /\ Ev.hash = h)
        /\ ChkL("flow", "new here", Ev.added = (x \notin DOMAIN st.k[Ev.c]))
        /\ st' = IF x \in DOMAIN st.k[Ev.c] THEN st
                 ELSE [st EXCEPT !.k[Ev.c] = With(@, x, [st.w[x] EXCEPT !.hash = h])]
LoseEv ==
  /\ Ev.op = "lose"
  /\ ChkL("flow", "was here", Ev.was = (<<Ev.side, Ev.gid>> \in DOMAIN st.k[Ev.c]))
  /\ st' = Lose(st, Ev.c, Ev.side, Ev.gid)
DestroyEv == Ev.op = "destroy" /\ st' = Destroy(st, Ev.side, Ev.gid)
ListEv ==
  /\ Ev.op = "list"
  /\ ChkL("flow", "listing", Ev.ret = "OK" /\ Listed(Ev.items, st.k[Ev.c], Ev.side, Ev.topic))
  /\ UNCHANGED st
MatchEv ==
  /\ Ev.op = "match"
  /\ ChkL("flow", "pairs", {<<Ev.pairs[i].p, Ev.pairs[i].s>> : i \in 1..Len(Ev.pairs)}
                           = {<<x[1][2], x[2][2]>> : x \in Pairs(st, Ev.topic)})
  /\ \A i \in 1..Len(Ev.pairs) :
       LET v == Verdict(st.w[<<"pub", Ev.pairs[i].p>>].prof, st.w[<<"sub", Ev.pairs[i].s>>].prof)
       IN /\ ChkL("flow", <<"verdict", v>>, Ev.pairs[i].verdict = v)
          /\ ChkL("flow", "open profiles are incompatible",
                  IF Ev.topic \notin st.spoilt THEN Ev.pairs[i].verdict # "ERROR" ELSE TRUE)
  /\ UNCHANGED st

Init == l = 1 /\ st = NoFlow(0)
Next == l <= Len(Trace)
        /\ (Reset \/ CreateEv \/ FindEv \/ LoseEv \/ DestroyEv \/ ListEv \/ MatchEv)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
TraceAccepted ==
  IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
  ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter, Len(Trace)>>) /\ FALSE
=============================================================================
