---------------------------- MODULE SecurityTrace ----------------------------
(* Accepts the recorded lookups (harness/security_driver.cpp) that answer    *)
(* what SecurityOps says for the files present at that moment.               *)
EXTENDS SecurityOps, Json, TLC, IOUtils

CONSTANT Focus
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, fs      \* fs: enclave id -> enclave
vars == <<l, fs>>
Ev == Trace[l]
SeqRange(s) == {s[i] : i \in 1..Len(s)}

ChkL(aspect, what, cond) ==
  IF aspect \notin Focus THEN TRUE
  ELSE IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", l, aspect, what>>) /\ FALSE

(* paths are compared up to repeated slashes *)
Slash == 47
Collapse(p) ==
  LET keep == {i \in 1..Len(p) : ~(p[i] = Slash /\ i > 1 /\ p[i - 1] = Slash)}
  IN IF Cardinality(keep) = Len(p) THEN p
     ELSE LET RECURSIVE C(_)
              C(i) == IF i > Len(p) THEN <<>>
                      ELSE (IF i \in keep THEN <<p[i]>> ELSE <<>>) \o C(i + 1)
          IN C(1)
PathIn(root, name) ==
  IF root = <<>> THEN name
  ELSE IF root[Len(root)] = Slash THEN root \o name ELSE root \o <<Slash>> \o name

(* one outcome o = [ok, threw, res : sequence of [attr, text]] *)
OutcomeOK(enc, q, o) ==
  LET got == {o.res[i].attr : i \in 1..Len(o.res)}
      val(a) == LET i == CHOOSE i \in 1..Len(o.res) : o.res[i].attr = a IN o.res[i]
      done == Complete(enc, q.pkcs)
  IN /\ ChkL("outcome", "exception", ~o.threw)
     /\ ChkL("outcome", "verdict", o.ok = done)
     /\ ChkL("outcome", "attributes reported", got = Reported(enc, q.pkcs) /\ Len(o.res) = Cardinality(got))
     /\ ChkL("repeat", "depends on more than files and arguments",
             ~o.threw /\ o.ok = done /\ got = Reported(enc, q.pkcs))
     /\ \A a \in got \cap Reported(enc, q.pkcs) :
          LET v == val(a)
              src == Source(enc, q.pkcs, a)
              isWord == v.text = FirstWord(enc[P11Of(a)].text)
              isPath == /\ StartsWith(v.text, q.prefix)
                        /\ Collapse(SubSeq(v.text, Len(q.prefix) + 1, Len(v.text))) = Collapse(PathIn(q.root, NameBytes[FileOf(a)]))
          IN /\ src = "file" => ChkL("path", <<"file value", a>>, isPath)
             /\ src = "p11" => ChkL("p11", <<"PKCS#11 value", a>>, isWord)
             /\ (a \in P11Attributes /\ src = "file") => ChkL("p11", <<"falls back to the file", a>>, isPath)
             /\ ChkL("repeat", <<"value", a>>, IF src = "file" THEN isPath ELSE isWord)
     /\ ChkL("p11", "attributes with and without PKCS#11", o.ok = done /\ got = Reported(enc, q.pkcs))

Init == l = 1 /\ fs = <<>>
Reset == Ev.op = "reset" /\ fs' = [i \in 1..Ev.n |-> EmptyEnclave]
Put ==
  /\ Ev.op = "put"
  /\ fs' = [fs EXCEPT ![Ev.c][Ev.name] = [type |-> Ev.type, readable |-> Ev.readable, text |-> Ev.text]]
(* the superuser reads everything *)
Seen(enc, privileged) == [n \in FileNames |-> [enc[n] EXCEPT !.readable = @ \/ privileged]]
Look ==
  /\ Ev.op = "look"
  /\ LET enc == IF Ev.gone THEN EmptyEnclave ELSE Seen(fs[Ev.c], ~Ev.dropped)
     IN OutcomeOK(enc, Ev, Ev.o)
  /\ ChkL("repeat", "files untouched", Ev.same)
  /\ UNCHANGED fs
(* lookups of several enclaves at the same time, many times each: `outs` are the  *)
(* distinct outcomes seen for each enclave                                        *)
Par ==
  /\ Ev.op = "par"
  /\ \A i \in 1..Len(Ev.runs) :
       \A j \in 1..Len(Ev.runs[i].outs) :
         OutcomeOK(Seen(fs[Ev.runs[i].c], TRUE), Ev.runs[i], Ev.runs[i].outs[j])
  /\ UNCHANGED fs
Next == l <= Len(Trace) /\ (Reset \/ Put \/ Look \/ Par) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
  ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter, Len(Trace)>>) /\ FALSE
=============================================================================
