------------------------------- MODULE Security -------------------------------
(* Enclaves whose files come and go, lookups of them by one client that keeps *)
(* its result object between lookups.  The lookup is modelled step by step as *)
(* the implementation does it (attribute after attribute, in any order, a     *)
(* partly filled result that is cleared on failure); the properties compare   *)
(* its outcome with the declarative answer of SecurityOps.                    *)
EXTENDS SecurityOps, Json, TLC

CONSTANTS Slots,     \* file names whose entry varies; all others are plain files
          Kinds,     \* entry kinds explored
          Flags,     \* values of the PKCS#11 argument explored
          EmitOn

VARIABLES fs,        \* slot -> kind
          res,       \* the client's result object: attribute -> source
          call,      \* running lookup, or <<>>
          act
vars == <<fs, res, call, act>>
View == <<fs, res, call>>

Good == P11Prefix \o <<97>>
Entry(k) ==
  CASE k = "none" -> NoEntry
    [] k = "file" -> [type |-> "file", readable |-> TRUE, text |-> <<97, 98>>]
    [] k = "dir" -> [type |-> "dir", readable |-> TRUE, text |-> <<>>]
    [] k = "secret" -> [type |-> "file", readable |-> FALSE, text |-> Good]
    [] k = "uri" -> [type |-> "file", readable |-> TRUE, text |-> <<10, 32>> \o Good \o <<32, 120>>]
    [] k = "late" -> [type |-> "file", readable |-> TRUE, text |-> <<120, 32>> \o Good]
    [] k = "blank" -> [type |-> "file", readable |-> TRUE, text |-> <<32, 10>>]
Enc(f) == [n \in FileNames |-> IF n \in Slots THEN Entry(f[n]) ELSE Entry("file")]

Init == /\ fs = [s \in Slots |-> "file"]
        /\ res = <<>> /\ call = <<>> /\ act = [op |-> "init"]
Change ==
  /\ call = <<>>
  /\ \E s \in Slots, k \in Kinds :
       /\ fs[s] # k
       /\ fs' = [fs EXCEPT ![s] = k]
       /\ act' = [op |-> "put", name |-> s, kind |-> k]
  /\ UNCHANGED <<res, call>>
(* lookup: start with an empty result, then one attribute at a time *)
Begin ==
  /\ call = <<>>
  /\ \E p \in Flags :
       /\ call' = [pkcs |-> p, todo |-> Mandatory]
       /\ act' = [op |-> "begin"]
  /\ res' = <<>>
  /\ UNCHANGED fs
Take ==
  /\ call # <<>> /\ call.todo # {}
  /\ \E a \in call.todo :
       LET s == Source(Enc(fs), call.pkcs, a)
       IN    IF s = "none"
             THEN res' = <<>> /\ call' = <<>> /\ act' = [op |-> "fail", pkcs |-> call.pkcs]
             ELSE /\ res' = [x \in DOMAIN res \cup {a} |-> IF x = a THEN s ELSE res[x]]
                  /\ call' = [call EXCEPT !.todo = @ \ {a}]
                  /\ act' = [op |-> "take"]
  /\ UNCHANGED fs
End ==
  /\ call # <<>> /\ call.todo = {}
  /\ LET s == Source(Enc(fs), call.pkcs, "CRL")
     IN res' = IF s = "none" THEN res ELSE [x \in DOMAIN res \cup {"CRL"} |-> IF x = "CRL" THEN s ELSE res[x]]
  /\ call' = <<>>
  /\ act' = [op |-> "ok", pkcs |-> call.pkcs]
  /\ UNCHANGED fs
Next == Change \/ Begin \/ Take \/ End
Fair == WF_vars(Take \/ End)
Spec == Init /\ [][Next]_vars /\ Fair

Emit == (EmitOn /\ act'.op \in {"put"}) => PrintT("EDGE" \o ToJson([i |-> fs = [s \in Slots |-> "file"], a |-> act', s |-> fs, t |-> fs']))

(* C22: success exactly when all six are available, all or nothing *)
AllOrNothing ==
  [][ /\ act'.op = "ok" => Complete(Enc(fs), act'.pkcs) /\ Mandatory \subseteq DOMAIN res'
      /\ act'.op = "fail" => ~Complete(Enc(fs), act'.pkcs) /\ res' = <<>> ]_vars
(* C25 (and C23, C24 by the definition of Source): the outcome is Answer *)
OutcomeIsAnswer ==
  [][ act'.op \in {"ok", "fail"} => res' = Answer(Enc(fs), act'.pkcs) ]_vars
(* without PKCS#11 support no .p11 file has any influence *)
P11Inert ==
  \A s \in Slots : (s \in {P11Of(a) : a \in P11Attributes}) =>
    \A k \in Kinds : Answer(Enc([fs EXCEPT ![s] = k]), FALSE) = Answer(Enc(fs), FALSE)
(* governance, permissions and CRL are never taken from PKCS#11 *)
NeverP11 == \A p \in Flags : \A a \in {"GOVERNANCE", "PERMISSIONS", "CRL"} :
              Source(Enc(fs), p, a) # "p11"
(* removing what is optional or unused never turns success into failure *)
OptionalHarmless ==
  \A p \in Flags : Complete(Enc(fs), p) =>
    Complete([Enc(fs) EXCEPT !["crl.pem"] = NoEntry], p)
Terminates == [](call # <<>> => <>(call = <<>>))
=============================================================================
