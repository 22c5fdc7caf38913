------------------------------- MODULE QosOps -------------------------------
(* Quality-of-service rules, stated declaratively: what is requested versus   *)
(* offered, what is unknown, and what "best available" resolves to.           *)
(* A profile is a record [rel, dur, liv, hist, depth, dl, life, ll, avoid].   *)
(* Policies carry the names the rmw layer prints for them; durations are      *)
(* sequences of numbers, most significant first, the seconds in the first     *)
(* half, compared lexicographically; the zero duration means "unspecified".   *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Unspecified, BestAvailable, Infinite     \* durations

Rels == {"system_default", "reliable", "best_effort", "unknown", "best_available"}
Durs == {"system_default", "transient_local", "volatile", "unknown", "best_available"}
Livs == {"system_default", "automatic", "manual_by_node", "manual_by_topic", "unknown", "best_available"}

(* ------------------------------------------------------------ durations -- *)
Shorter(a, b) ==
  \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
(* A subscription that asks for a duration asks for more than a publisher that *)
(* names none, or a longer one, offers.                                        *)
AsksShorter(p, s) ==
  IF s = Unspecified THEN FALSE ELSE IF p = Unspecified THEN TRUE ELSE Shorter(s, p)

(* ---------------------------------------------- requested versus offered -- *)
RelErr(p, s) == p = "best_effort" /\ s = "reliable"
DurErr(p, s) == p = "volatile" /\ s = "transient_local"
LivErr(p, s) == p = "automatic" /\ s = "manual_by_topic"

Vague == {"system_default", "unknown"}
(* what a vague policy may turn out to be *)
Resolve(v, concrete) == IF v \in Vague THEN concrete ELSE {v}
RelRes(v) == Resolve(v, {"reliable", "best_effort"})
DurRes(v) == Resolve(v, {"transient_local", "volatile"})
LivRes(v) == Resolve(v, {"automatic", "manual_by_topic"})

RelWarn(p, s) == (p \in Vague \/ s \in Vague) /\ \E a \in RelRes(p), b \in RelRes(s) : RelErr(a, b)
DurWarn(p, s) == (p \in Vague \/ s \in Vague) /\ \E a \in DurRes(p), b \in DurRes(s) : DurErr(a, b)
LivWarn(p, s) == (p \in Vague \/ s \in Vague) /\ \E a \in LivRes(p), b \in LivRes(s) : LivErr(a, b)

HasError(p, s) ==
  RelErr(p.rel, s.rel) \/ DurErr(p.dur, s.dur) \/ LivErr(p.liv, s.liv)
  \/ AsksShorter(p.dl, s.dl) \/ AsksShorter(p.ll, s.ll)
HasWarning(p, s) == RelWarn(p.rel, s.rel) \/ DurWarn(p.dur, s.dur) \/ LivWarn(p.liv, s.liv)

Verdict(p, s) == IF HasError(p, s) THEN "ERROR" ELSE IF HasWarning(p, s) THEN "WARNING" ELSE "OK"

(* ------------------------------------------------------------- the reason -- *)
If(c, x) == IF c THEN <<x>> ELSE <<>>
Errors(p, s) ==
     If(RelErr(p.rel, s.rel), "ERROR: Best effort publisher and reliable subscription;")
  \o If(DurErr(p.dur, s.dur), "ERROR: Volatile publisher and transient local subscription;")
  \o If(p.dl = Unspecified /\ s.dl # Unspecified, "ERROR: Subscription has a deadline, but publisher does not;")
  \o If(p.dl # Unspecified /\ AsksShorter(p.dl, s.dl), "ERROR: Subscription deadline is less than publisher deadline;")
  \o If(LivErr(p.liv, s.liv), "ERROR: Publisher's liveliness is automatic and subscription's is manual by topic;")
  \o If(p.ll = Unspecified /\ s.ll # Unspecified,
        "ERROR: Subscription has a liveliness lease duration, but publisher does not;")
  \o If(p.ll # Unspecified /\ AsksShorter(p.ll, s.ll),
        "ERROR: Subscription liveliness lease duration is less than publisher;")
Both(p, s) == p \in Vague /\ s \in Vague
RelWarning(p, s) ==
  IF Both(p, s) THEN "WARNING: Publisher reliability is " \o p \o " and subscription reliability is " \o s \o ";"
  ELSE IF p \in Vague THEN "WARNING: Reliable subscription, but publisher is " \o p \o ";"
  ELSE "WARNING: Best effort publisher, but subscription is " \o s \o ";"
(* "durabilty" is how the text is spelt *)
DurWarning(p, s) ==
  IF Both(p, s) THEN "WARNING: Publisher durabilty is " \o p \o " and subscription durability is " \o s \o ";"
  ELSE IF p \in Vague THEN "WARNING: Transient local subscription, but publisher is " \o p \o ";"
  ELSE "WARNING: Volatile publisher, but subscription is " \o s \o ";"
LivWarning(p, s) ==
  IF Both(p, s) THEN "WARNING: Publisher liveliness is " \o p \o " and subscription liveliness is " \o s \o ";"
  ELSE IF p \in Vague THEN "WARNING: Subscription's liveliness is manual by topic, but publisher's is " \o p \o ";"
  ELSE "WARNING: Publisher's liveliness is automatic, but subscription's is " \o s \o ";"
Warnings(p, s) ==
     If(RelWarn(p.rel, s.rel), RelWarning(p.rel, s.rel))
  \o If(DurWarn(p.dur, s.dur), DurWarning(p.dur, s.dur))
  \o If(LivWarn(p.liv, s.liv), LivWarning(p.liv, s.liv))
Messages(p, s) == IF HasError(p, s) THEN Errors(p, s) ELSE Warnings(p, s)
RECURSIVE Join(_)
Join(ms) == IF ms = <<>> THEN "" ELSE Head(ms) \o Join(Tail(ms))
(* what a buffer of n > 0 characters holds: the longest prefix that leaves room *)
(* for the terminating null                                                     *)
Fit(text, n) == IF Len(text) < n THEN text ELSE SubSeq(text, 1, n - 1)

(* --------------------------------------------------------- best available -- *)
(* eps: the sequence of profiles discovered on the topic; only the set matters. *)
Profiles(eps) == {eps[i] : i \in 1..Len(eps)}
Specified(durations) == durations \ {Unspecified}
Longest(D) == CHOOSE d \in D : \A e \in D : ~Shorter(d, e)
Shortest(D) == CHOOSE d \in D : \A e \in D : ~Shorter(e, d)
LongestOf(D) == IF Specified(D) = {} THEN Unspecified ELSE Longest(Specified(D))
ShortestOf(D) == IF Specified(D) = {} THEN Unspecified ELSE Shortest(Specified(D) \cup {Infinite})

SubscriptionAmong(q, E) ==
  LET pick(all, strong, weak) == IF all THEN strong ELSE weak
  IN [q EXCEPT
       !.rel = IF @ = "best_available"
               THEN pick(\A e \in E : e.rel = "reliable", "reliable", "best_effort") ELSE @,
       !.dur = IF @ = "best_available"
               THEN pick(\A e \in E : e.dur = "transient_local", "transient_local", "volatile") ELSE @,
       !.liv = IF @ = "best_available"
               THEN pick(\A e \in E : e.liv = "manual_by_topic", "manual_by_topic", "automatic") ELSE @,
       !.dl = IF @ = BestAvailable THEN LongestOf({e.dl : e \in E}) ELSE @,
       !.ll = IF @ = BestAvailable THEN LongestOf({e.ll : e \in E}) ELSE @]

PublisherAmong(q, E) ==
     [q EXCEPT
       !.rel = IF @ = "best_available" THEN "reliable" ELSE @,
       !.dur = IF @ = "best_available" THEN "transient_local" ELSE @,
       !.liv = IF @ = "best_available"
               THEN (IF \E e \in E : e.liv = "manual_by_topic" THEN "manual_by_topic" ELSE "automatic") ELSE @,
       !.dl = IF @ = BestAvailable THEN ShortestOf({e.dl : e \in E}) ELSE @,
       !.ll = IF @ = BestAvailable THEN ShortestOf({e.ll : e \in E}) ELSE @]

Among(side, q, E) == IF side = "sub" THEN SubscriptionAmong(q, E) ELSE PublisherAmong(q, E)
For(side, q, eps) == Among(side, q, Profiles(eps))

NeedsQuery(q) ==
  \/ q.rel = "best_available" \/ q.dur = "best_available" \/ q.liv = "best_available"
  \/ q.dl = BestAvailable \/ q.ll = BestAvailable

(* the default services profile: reliable, volatile, the rest left open *)
ForServices(q) ==
  [q EXCEPT !.rel = IF @ = "best_available" THEN "reliable" ELSE @,
            !.dur = IF @ = "best_available" THEN "volatile" ELSE @,
            !.liv = IF @ = "best_available" THEN "system_default" ELSE @,
            !.dl = IF @ = BestAvailable THEN Unspecified ELSE @,
            !.ll = IF @ = BestAvailable THEN Unspecified ELSE @]
=============================================================================
