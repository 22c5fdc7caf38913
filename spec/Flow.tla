-------------------------------- MODULE Flow --------------------------------
(* Every history of creating, finding, losing and destroying endpoints with     *)
(* open and fixed profiles in a few contexts, on one topic.                      *)
EXTENDS FlowOps, Json
CONSTANTS Ctxs, Pubs, Subs, Catalog, Profile(_), EmitOn
VARIABLES st, act
vars == <<st, act>>
View == st
T == "t"
Ends == ({"pub"} \X Pubs) \cup ({"sub"} \X Subs)
Init == st = NoFlow(Ctxs) /\ act = [op |-> "init"]

Unknown(x) == x \notin DOMAIN st.w /\ \A c \in 1..Ctxs : x \notin DOMAIN st.k[c]   \* ids are never reused
DoCreate == \E c \in 1..Ctxs, x \in Ends, n \in Catalog :
  /\ Unknown(x)
  /\ st' = Create(st, c, x[1], x[2], T, "ty", 0, Profile(n), FALSE)
  /\ act' = [op |-> "create", c |-> c, side |-> x[1], gid |-> x[2], n |-> n]
DoFind == \E c \in 1..Ctxs : \E x \in DOMAIN st.w \ DOMAIN st.k[c] :
  /\ st' = Find(st, c, x[1], x[2])
  /\ act' = [op |-> "find", c |-> c, side |-> x[1], gid |-> x[2], n |-> "-"]
DoLose == \E c \in 1..Ctxs : \E x \in DOMAIN st.k[c] :
  /\ st' = Lose(st, c, x[1], x[2])
  /\ act' = [op |-> "lose", c |-> c, side |-> x[1], gid |-> x[2], n |-> "-"]
DoDestroy == \E x \in DOMAIN st.w :
  /\ st' = Destroy(st, x[1], x[2])
  /\ act' = [op |-> "destroy", c |-> 0, side |-> x[1], gid |-> x[2], n |-> "-"]
Next == DoCreate \/ DoFind \/ DoLose \/ DoDestroy
Spec == Init /\ [][Next]_vars

Key == [w |-> {<<x, st.w[x]>> : x \in DOMAIN st.w}, s |-> st.spoilt,
        k |-> [c \in 1..Ctxs |-> {<<x, st.k[c][x]>> : x \in DOMAIN st.k[c]}]]
Emit == IF EmitOn
        THEN PrintT("EDGE" \o ToJson([i |-> act.op = "init", a |-> act', s |-> ToString(Key), t |-> ToString(Key')]))
        ELSE TRUE

(* discovery only ever reports what was announced *)
KnownIsTrue == \A c \in 1..Ctxs : \A x \in DOMAIN st.k[c] :
                  x \in DOMAIN st.w => st.k[c][x] = st.w[x]
(* a profile left open fits everything its creator had discovered: a publisher  *)
(* in every respect, a subscription in the policies, also after durations are cut *)
FitsKnown ==
  [][ act'.op = "create" /\ AllOpen(Profile(act'.n)) =>
        LET c == act'.c
            K == Profs(st.k[c], On(st.k[c], Other(act'.side), T))
            out == st'.w[<<act'.side, act'.gid>>].prof
        IN CreatedFits(act'.side, out, K) ]_vars
(* nothing but creation decides a profile *)
Stable == [][ \A x \in DOMAIN st.w \cap DOMAIN st'.w : st'.w[x] = st.w[x] ]_vars
(* where everything was left open, nothing is ever incompatible *)
AllOpenFits == T \notin st.spoilt => \A x \in Pairs(st, T) : ~HasError(st.w[x[1]].prof, st.w[x[2]].prof)
(* not guaranteed otherwise: TLC must find the counterexample *)
NeverMismatch == \A x \in Pairs(st, T) : ~HasError(st.w[x[1]].prof, st.w[x[2]].prof)
(* nor for subscriptions' durations *)
SubscriptionFitsInAll ==
  [][ act'.op = "create" /\ act'.side = "sub" /\ AllOpen(Profile(act'.n)) =>
        LET K == Profs(st.k[act'.c], On(st.k[act'.c], "pub", T))
        IN \A e \in K : ~HasError(e, st'.w[<<"sub", act'.gid>>].prof) ]_vars
=============================================================================
