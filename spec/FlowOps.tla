------------------------------ MODULE FlowOps -------------------------------
(* Profiles flowing through the graph: an endpoint is created with a profile    *)
(* resolved among the endpoints of the other kind its context has discovered,    *)
(* with durations cut to what DDS can hold; it is announced on the wire with its *)
(* profile and its type hash, and found, lost and found again by other contexts, *)
(* whose later resolutions rest on what they found.                              *)
(*   w : <<side, gid>> -> endpoint            what exists                        *)
(*   k : context -> (<<side, gid>> -> endpoint)   what is discovered there       *)
(* An endpoint is [topic, type, prof, hash].  `free` holds the topics on which   *)
(* every endpoint so far left everything open and knew all its counterparts.     *)
EXTENDS QosOps, TLC
CONSTANT DMax                       \* the longest duration DDS can hold

Other(side) == IF side = "pub" THEN "sub" ELSE "pub"
Cut(d) == IF Shorter(DMax, d) THEN DMax ELSE d
OnWire(q) == [q EXCEPT !.dl = Cut(@), !.ll = Cut(@)]

NoFlow(n) == [w |-> <<>>, k |-> [i \in 1..n |-> <<>>], spoilt |-> {}]
With(f, x, y) == (x :> y) @@ f
Without(f, x) == [z \in DOMAIN f \ {x} |-> f[z]]
On(f, side, topic) == {x \in DOMAIN f : x[1] = side /\ f[x].topic = topic}
Profs(f, X) == {f[x].prof : x \in X}

(* what a creation in context c resolves to *)
Asks(q, svc) == IF svc THEN ForServices(q) ELSE q
Resolved(st, c, side, topic, q, svc) ==
  LET a == Asks(q, svc)
      X == On(st.k[c], Other(side), topic)
  IN IF NeedsQuery(a) THEN Among(side, a, Profs(st.k[c], X)) ELSE a
AllOpen(q) == q.rel = "best_available" /\ q.dur = "best_available" /\ q.liv = "best_available"
              /\ q.dl = BestAvailable /\ q.ll = BestAvailable
(* the creator knew every counterpart there was *)
Informed(st, c, side, topic) ==
  On(st.w, Other(side), topic) \subseteq On(st.k[c], Other(side), topic)

Create(st, c, side, gid, topic, type, hash, q, svc) ==
  LET e == [topic |-> topic, type |-> type, hash |-> hash,
            prof |-> OnWire(Resolved(st, c, side, topic, q, svc))]
      x == <<side, gid>>
  IN [st EXCEPT !.w = With(@, x, e), !.k[c] = With(@, x, e),
                !.spoilt = IF AllOpen(Asks(q, svc)) /\ Informed(st, c, side, topic) THEN @ ELSE @ \cup {topic}]
Find(st, c, side, gid) ==
  LET x == <<side, gid>>
  IN IF x \in DOMAIN st.k[c] THEN st ELSE [st EXCEPT !.k[c] = With(@, x, st.w[x])]
Lose(st, c, side, gid) == [st EXCEPT !.k[c] = Without(@, <<side, gid>>)]
Destroy(st, side, gid) == [st EXCEPT !.w = Without(@, <<side, gid>>)]

Pairs(st, topic) == On(st.w, "pub", topic) \X On(st.w, "sub", topic)
Fits(p, s) == ~(RelErr(p.rel, s.rel) \/ DurErr(p.dur, s.dur) \/ LivErr(p.liv, s.liv))
(* what a freshly created endpoint may count on *)
CreatedFits(side, out, E) ==
  \A e \in E : IF side = "pub" THEN ~HasError(out, e) ELSE Fits(e, out)
=============================================================================
