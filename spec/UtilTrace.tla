------------------------------ MODULE UtilTrace ------------------------------
(* Accepts the recorded calls (harness/util_driver.cpp) that answer what TimeOps *)
(* and GidOps say.                                                               *)
EXTENDS TimeOps, GidOps, Json, TLC, IOUtils
CONSTANT Focus
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, last      \* last: the previous duration and its clamped form
Ev == Trace[l]
ChkL(aspect, what, cond) ==
  IF aspect \notin Focus THEN TRUE
  ELSE IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", l, aspect, what>>) /\ FALSE
ClampEv ==
  /\ Ev.op = "clamp"
  /\ ChkL("time", "clamped", Ev.out = Clamp(Ev.t))
  /\ ChkL("time", "idempotent", Ev.twice = Ev.out)
  /\ ChkL("time", "argument", Ev.arg = Ev.t)
  /\ ChkL("time", "monotonic",
          \A p \in last : IF Earlier(Normal(p.t), Normal(Ev.t)) THEN ~Earlier(Ev.out, p.out) ELSE ~Earlier(p.out, Ev.out))
  /\ last' = {[t |-> Ev.t, out |-> Ev.out]}
Gids ==
  /\ Ev.op = "gid"
  /\ ChkL("gid", "order", Ev.lt = GidLess(Ev.a, Ev.b) /\ Ev.gt = GidLess(Ev.b, Ev.a))
  /\ ChkL("gid", "equality", Ev.eq = (Ev.a = Ev.b) /\ Ev.qe = Ev.eq)
  /\ ChkL("gid", "conversion", Ev.msg = Ev.a /\ Ev.back = Ev.a /\ Ev.clean)
  /\ ChkL("gid", "printing", Ev.text = "<" \o Shown(Ev.a) \o "|" \o Shown(Ev.b) \o ">4095")
  /\ UNCHANGED last
Reset == Ev.op = "reset" /\ last' = {}
Init == l = 1 /\ last = {}
Next == l <= Len(Trace) /\ (Reset \/ ClampEv \/ Gids) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, last>>
TraceAccepted ==
  IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
  ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter, Len(Trace)>>) /\ FALSE
=============================================================================
