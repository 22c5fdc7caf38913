------------------------------ MODULE QosTrace ------------------------------
(* Accepts the recorded calls (harness/qos_driver.cpp) that answer what QosOps *)
(* and TypeHashOps say.                                                        *)
EXTENDS QosOps, TypeHashOps, Json, TLC, IOUtils

CONSTANT Focus
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Ev == Trace[l]
ChkL(aspect, what, cond) ==
  IF aspect \notin Focus THEN TRUE
  ELSE IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", l, aspect, what>>) /\ FALSE

(* the durations with a meaning of their own, in limbs *)
DUnspecified == <<0, 0, 0, 0, 0, 0, 0, 0>>
DBestAvailable == <<0, 0, 9223, 372036, 0, 0, 854, 775806>>
DInfinite == <<0, 0, 9223, 372036, 0, 0, 854, 775807>>

Refused(how) == how \in {"nilnz", "nov", "nov0"}
Compat ==
  /\ Ev.op = "compat"
  /\ LET v == Verdict(Ev.p, Ev.s)
         text == Join(Messages(Ev.p, Ev.s))
     IN \A i \in 1..Len(Ev.runs) :
          LET r == Ev.runs[i] IN
          IF Refused(r.how)
          THEN /\ ChkL("reason", <<"refusal", r.how>>, r.ret = "INVALID")
               /\ ChkL("reason", "memory outside the buffer", r.intact)
          ELSE /\ ChkL("verdict", <<"verdict", v>>, r.ret = "OK" /\ r.verdict = v)
               /\ ChkL("reason", <<"verdict with buffer", r.how, r.size>>, r.ret = "OK" /\ r.verdict = v)
               /\ ChkL("reason", "memory outside the buffer", r.intact)
               /\ ChkL("reason", "termination", r.ended)
               /\ ChkL("reason", <<"text", r.size>>, IF r.how = "buf" /\ r.size > 0 THEN r.text = Fit(text, r.size) ELSE TRUE)
Best ==
  /\ Ev.op = "best"
  /\ ChkL(Ev.side, "return value", Ev.ret = "OK")
  /\ ChkL(Ev.side, "resolved profile", Ev.out = For(Ev.side, Ev.q, Ev.eps))
  /\ ChkL(Ev.side, "endpoints untouched", Ev.kept)
BestNull ==
  /\ Ev.op = "bestnull"
  /\ \A side \in {"sub", "pub"} : ChkL(side, "null argument", Ev.ret = "INVALID" /\ Ev.out = Ev.q)
TopicEv ==
  /\ Ev.op = "topic"
  /\ IF Ev.null
     THEN ChkL("topic", "null argument", Ev.ret = "INVALID" /\ Ev.calls = 0 /\ Ev.out = Ev.q)
     ELSE /\ ChkL("topic", "number of queries", Ev.calls = (IF NeedsQuery(Ev.q) THEN 1 ELSE 0))
          /\ ChkL("topic", "query arguments", Ev.asked)
          /\ ChkL("topic", "return value", Ev.ret = (IF NeedsQuery(Ev.q) THEN Ev.qret ELSE "OK"))
          /\ ChkL("topic", "resolved profile",
                  Ev.out = (IF NeedsQuery(Ev.q) /\ Ev.qret = "OK" THEN For(Ev.side, Ev.q, Ev.eps) ELSE Ev.q))
  /\ ChkL("topic", "endpoint list released once", Ev.left = 0 /\ Ev.bad = 0)
Svc ==
  /\ Ev.op = "svc"
  /\ ChkL("services", "profile", Ev.out = ForServices(Ev.q))
  /\ ChkL("services", "twice", Ev.twice = Ev.out)
  /\ ChkL("services", "argument", Ev.arg = Ev.q)

(* ------------------------------------------------------------ type hashes -- *)
N == 32
Enc ==
  /\ Ev.op = "enc"
  /\ ChkL("hash", "encoding", (Ev.ret = "OK" /\ Ev.text = Encode(Ev.hash)) \/ (Ev.nomem /\ Ev.ret = "BAD_ALLOC"))
  /\ ChkL("hash", "memory released once", Ev.left = 0 /\ Ev.bad = 0)
  /\ ChkL("hash", "argument", Ev.arg = Ev.hash)
Parse ==
  /\ Ev.op = "parse"
  /\ ChkL("hash", "parsing",
          \E a \in Answers(Ev.data, N) : a.ret = Ev.ret /\ (IF a.hash = Any THEN TRUE ELSE a.hash = Ev.hash))
ParseNull == Ev.op = "parsenull" /\ ChkL("hash", "null data", Ev.ret = "INVALID" /\ Ev.ret2 = "INVALID")
Trip ==
  /\ Ev.op = "trip"
  /\ ChkL("hash", "round trip", Ev.eret = "OK" /\ Ev.ret = "OK" /\ Ev.out = (IF Ev.hash.version = 0 THEN Unset(N) ELSE Ev.hash))
Reset == Ev.op = "reset"

Init == l = 1
Next == l <= Len(Trace)
        /\ (Reset \/ Compat \/ Best \/ BestNull \/ TopicEv \/ Svc \/ Enc \/ Parse \/ ParseNull \/ Trip)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted ==
  IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
  ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter, Len(Trace)>>) /\ FALSE
=============================================================================
