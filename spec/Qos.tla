-------------------------------- MODULE Qos --------------------------------
(* The QoS operations as step-by-step procedures over small domains, checked  *)
(* against the declarative rules of QosOps:                                   *)
(*  - "compat": collects messages one policy at a time into a bounded buffer; *)
(*  - "topic": asks the graph if needed, folds the endpoints in ANY order,    *)
(*     writes the profile, releases the list;                                 *)
(*  - "services".                                                             *)
EXTENDS QosOps, TLC, Json

CONSTANTS Mode,        \* "compat", "durations", "topic", "services"
          Sizes,       \* buffer sizes
          MaxEndpoints, EmitOn

D == {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<9, 6>>, <<9, 7>>, <<9, 8>>}
Base == [rel |-> "reliable", dur |-> "volatile", liv |-> "automatic", dl |-> Unspecified, ll |-> Unspecified]
Policies == {[Base EXCEPT !.rel = r, !.dur = d, !.liv = v] : r \in Rels, d \in Durs, v \in Livs}
Durations == {[Base EXCEPT !.dl = a, !.ll = b] : a \in D, b \in D}
(* endpoints that matter for resolution *)
Few == {[Base EXCEPT !.rel = r, !.dur = d, !.liv = v, !.dl = t, !.ll = u] :
          <<r, d, v>> \in {<<"reliable", "transient_local", "manual_by_topic">>,
                           <<"best_effort", "volatile", "automatic">>,
                           <<"system_default", "system_default", "unknown">>,
                           <<"reliable", "volatile", "manual_by_node">>},
          <<t, u>> \in {<<<<0, 0>>, <<0, 0>>>>, <<<<0, 1>>, <<9, 7>>>>, <<<<1, 0>>, <<0, 1>>>>,
                        <<<<9, 8>>, <<9, 6>>>>, <<<<9, 6>>, <<0, 0>>>>}}
Asked == {[Base EXCEPT !.rel = r, !.dur = d, !.liv = v, !.dl = t, !.ll = u] :
          r \in {"best_available", "best_effort"}, d \in {"best_available", "system_default"},
          v \in {"best_available", "manual_by_topic"}, t \in {BestAvailable, <<1, 0>>},
          u \in {BestAvailable, <<0, 0>>}}

VARIABLES
  pc, side, p, s,                 \* compat: publisher, subscription; topic: s is the profile given
  size, buf, verdict, step, said, \* compat
  eps, todo, acc, out, asked, released, qret
vars == <<pc, side, p, s, size, buf, verdict, step, said, eps, todo, acc, out, asked, released, qret>>

NoAcc == [reliable |-> 0, tl |-> 0, manual |-> 0, dl |-> Unspecified, ll |-> Unspecified]
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

Init ==
  /\ side \in (IF Mode = "topic" THEN {"sub", "pub"} ELSE {"-"})
  /\ p \in (CASE Mode = "compat" -> Policies [] Mode = "durations" -> Durations [] OTHER -> {Base})
  /\ s \in (CASE Mode = "compat" -> Policies [] Mode = "durations" -> Durations
              [] Mode = "topic" -> Asked
              [] OTHER -> {[q EXCEPT !.dl = t, !.ll = u] : q \in Policies, t \in D, u \in D})
  /\ size \in (IF Mode \in {"compat", "durations"} THEN Sizes ELSE {0})
  /\ eps \in (IF Mode = "topic" THEN SeqsUpTo(Few, MaxEndpoints) ELSE {<<>>})
  /\ qret \in (IF Mode = "topic" THEN {"OK", "ERROR"} ELSE {"OK"})
  /\ pc = "start" /\ buf = "" /\ verdict = "OK" /\ step = 1 /\ said = <<>>
  /\ todo = {} /\ acc = NoAcc /\ out = s /\ asked = 0 /\ released = 0

(* ----------------------------------------------------------------- compat -- *)
Fitted(m) == IF size = 0 THEN buf
             ELSE LET room == size - 1 - Len(buf)
                  IN IF Len(m) <= room THEN buf \o m ELSE buf \o SubSeq(m, 1, room)
Say(kind, m) ==
  /\ verdict' = kind
  /\ buf' = Fitted(m)
  /\ said' = said \o <<m>>
(* the order in which the policies are looked at *)
Policy == <<"rel", "dur", "dl", "liv", "ll", "-", "rel?", "dur?", "liv?">>
ErrorOf(k) ==
  CASE k = "rel" -> IF RelErr(p.rel, s.rel) THEN Errors([Base EXCEPT !.rel = p.rel], [Base EXCEPT !.rel = s.rel]) ELSE <<>>
    [] k = "dur" -> IF DurErr(p.dur, s.dur) THEN Errors([Base EXCEPT !.dur = p.dur], [Base EXCEPT !.dur = s.dur]) ELSE <<>>
    [] k = "liv" -> IF LivErr(p.liv, s.liv) THEN Errors([Base EXCEPT !.liv = p.liv], [Base EXCEPT !.liv = s.liv]) ELSE <<>>
    [] k = "dl" -> Errors([Base EXCEPT !.dl = p.dl], [Base EXCEPT !.dl = s.dl])
    [] k = "ll" -> Errors([Base EXCEPT !.ll = p.ll], [Base EXCEPT !.ll = s.ll])
    [] OTHER -> <<>>
WarningOf(k) ==
  CASE k = "rel?" -> If(RelWarn(p.rel, s.rel), RelWarning(p.rel, s.rel))
    [] k = "dur?" -> If(DurWarn(p.dur, s.dur), DurWarning(p.dur, s.dur))
    [] k = "liv?" -> If(LivWarn(p.liv, s.liv), LivWarning(p.liv, s.liv))
    [] OTHER -> <<>>
Compat ==
  /\ Mode \in {"compat", "durations"} /\ pc = "start"
  /\ IF step > Len(Policy)
     THEN pc' = "done" /\ UNCHANGED <<verdict, buf, said, step>>
     ELSE LET k == Policy[step]
              e == ErrorOf(k)
              w == IF verdict = "ERROR" THEN <<>> ELSE WarningOf(k)
          IN /\ step' = step + 1 /\ pc' = pc
             /\ IF e # <<>> THEN Say("ERROR", e[1])
                ELSE IF w # <<>> THEN Say("WARNING", w[1])
                ELSE UNCHANGED <<verdict, buf, said>>
  /\ UNCHANGED <<side, p, s, size, eps, todo, acc, out, asked, released, qret>>

(* ------------------------------------------------------------------ topic -- *)
Ask ==
  /\ Mode = "topic" /\ pc = "start"
  /\ IF NeedsQuery(s)
     THEN /\ asked' = asked + 1
          /\ pc' = IF qret = "OK" THEN "fold" ELSE "done"
          /\ todo' = IF qret = "OK" THEN 1..Len(eps) ELSE {}
     ELSE pc' = "done" /\ UNCHANGED <<asked, todo>>
  /\ UNCHANGED <<side, p, s, size, buf, verdict, step, said, eps, acc, out, released, qret>>
Better(new, old) ==
  IF new = Unspecified THEN old ELSE IF old = Unspecified THEN new
  ELSE IF side = "sub" THEN (IF Shorter(old, new) THEN new ELSE old)
  ELSE (IF Shorter(new, old) THEN new ELSE old)
Take(i) ==
  LET e == eps[i] IN
  /\ pc = "fold" /\ i \in todo
  /\ todo' = todo \ {i}
  /\ acc' = [reliable |-> acc.reliable + (IF e.rel = "reliable" THEN 1 ELSE 0),
             tl |-> acc.tl + (IF e.dur = "transient_local" THEN 1 ELSE 0),
             manual |-> acc.manual + (IF e.liv = "manual_by_topic" THEN 1 ELSE 0),
             dl |-> Better(e.dl, acc.dl), ll |-> Better(e.ll, acc.ll)]
  /\ UNCHANGED <<pc, side, p, s, size, buf, verdict, step, said, eps, out, asked, released, qret>>
Cap(d) == IF side = "pub" /\ Shorter(Infinite, d) THEN Infinite ELSE d
Write ==
  /\ pc = "fold" /\ todo = {}
  /\ out' = [out EXCEPT
       !.rel = IF @ # "best_available" THEN @
               ELSE IF side = "pub" \/ acc.reliable = Len(eps) THEN "reliable" ELSE "best_effort",
       !.dur = IF @ # "best_available" THEN @
               ELSE IF side = "pub" \/ acc.tl = Len(eps) THEN "transient_local" ELSE "volatile",
       !.liv = IF @ # "best_available" THEN @
               ELSE IF (IF side = "pub" THEN acc.manual > 0 ELSE acc.manual = Len(eps))
                    THEN "manual_by_topic" ELSE "automatic",
       !.dl = IF @ # BestAvailable THEN @ ELSE Cap(acc.dl),
       !.ll = IF @ # BestAvailable THEN @ ELSE Cap(acc.ll)]
  /\ pc' = "release"
  /\ UNCHANGED <<side, p, s, size, buf, verdict, step, said, eps, todo, acc, asked, released, qret>>
Release ==
  /\ pc = "release" /\ released' = released + 1 /\ pc' = "done"
  /\ UNCHANGED <<side, p, s, size, buf, verdict, step, said, eps, todo, acc, out, asked, qret>>

Services ==
  /\ Mode = "services" /\ pc = "start" /\ out' = ForServices(s) /\ pc' = "done"
  /\ UNCHANGED <<side, p, s, size, buf, verdict, step, said, eps, todo, acc, asked, released, qret>>

Done == pc = "done" /\ UNCHANGED vars
Next == Compat \/ Ask \/ (\E i \in todo : Take(i)) \/ Write \/ Release \/ Services \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* one case per terminal state, for replay in the code *)
Emit == (EmitOn /\ pc' = "done" /\ pc # "done") =>
          PrintT("CASE" \o ToJson([side |-> side, p |-> p, s |-> s, eps |-> eps, qret |-> qret]))

(* -------------------------------------------------------------- properties -- *)
IsCompat == Mode \in {"compat", "durations"} /\ pc = "done"
(* C13 *)
VerdictRight == IsCompat => verdict = Verdict(p, s)
SelfCompatible == (IsCompat /\ p = s) => verdict # "ERROR"
(* making a vague pair concrete never turns an error into something else, and     *)
(* a warning has both outcomes ahead of it, at least one of them an error         *)
Concretize(q) == {[q EXCEPT !.rel = r, !.dur = d, !.liv = v] :
                    r \in RelRes(q.rel), d \in DurRes(q.dur), v \in LivRes(q.liv)}
Resolutions == IsCompat =>
  LET R == {Verdict(a, b) : a \in Concretize(p), b \in Concretize(s)}
  IN CASE verdict = "ERROR" -> R = {"ERROR"}
       [] verdict = "WARNING" -> "ERROR" \in R
       [] OTHER -> R = {"OK"}
(* asking for less never makes it worse *)
Rank == [OK |-> 0, WARNING |-> 1, ERROR |-> 2]
Relax == IsCompat =>
  \A q \in {[s EXCEPT !.rel = IF @ = "reliable" THEN "best_effort" ELSE @],
            [s EXCEPT !.dur = IF @ = "transient_local" THEN "volatile" ELSE @],
            [s EXCEPT !.liv = IF @ = "manual_by_topic" THEN "automatic" ELSE @],
            [s EXCEPT !.dl = Unspecified], [s EXCEPT !.ll = Unspecified]} :
    Rank[Verdict(p, q)] <= Rank[verdict]
(* C14 *)
ReasonRight == IsCompat => /\ said = Messages(p, s)
                           /\ size > 0 => buf = Fit(Join(Messages(p, s)), size)
                           /\ (verdict = "OK") = (said = <<>>)
NeverOverrun == size > 0 => Len(buf) < size
(* C15, C16, C17 *)
TopicDone == Mode = "topic" /\ pc = "done"
ResolvedRight == TopicDone => out = (IF NeedsQuery(s) /\ qret = "OK" THEN For(side, s, eps) ELSE s)
NothingLeft == (TopicDone /\ asked > 0 /\ qret = "OK") => ~NeedsQuery([out EXCEPT !.dl = IF @ = BestAvailable /\ s.dl # @ THEN Unspecified ELSE @,
                                                                                  !.ll = IF @ = BestAvailable /\ s.ll # @ THEN Unspecified ELSE @])
                   \/ \E e \in Profiles(eps) : e.dl = BestAvailable \/ e.ll = BestAvailable
AskedOnce == TopicDone => /\ asked = (IF NeedsQuery(s) THEN 1 ELSE 0)
                          /\ released = (IF NeedsQuery(s) /\ qret = "OK" THEN 1 ELSE 0)
ThreePolicies(a, b) == ~(RelErr(a.rel, b.rel) \/ DurErr(a.dur, b.dur) \/ LivErr(a.liv, b.liv))
SubscriptionFits == (TopicDone /\ side = "sub" /\ asked = 1 /\ qret = "OK"
                     /\ s.rel = "best_available" /\ s.dur = "best_available" /\ s.liv = "best_available")
                    => \A e \in Profiles(eps) : ThreePolicies(e, out)
PublisherFits == (TopicDone /\ side = "pub" /\ asked = 1 /\ qret = "OK"
                  /\ s.rel = "best_available" /\ s.dur = "best_available" /\ s.liv = "best_available"
                  /\ s.dl = BestAvailable /\ s.ll = BestAvailable)
                 => \A e \in Profiles(eps) : ~HasError(out, e)
(* C18 *)
ServicesRight == (Mode = "services" /\ pc = "done") =>
                    /\ ~NeedsQuery(out) /\ ForServices(out) = out
                    /\ (~NeedsQuery(s) => out = s)
Terminates == <>(pc = "done")
=============================================================================
