----------------------------- MODULE QueryFault -----------------------------
(* A graph query building its answer from blocks of the caller's allocator,   *)
(* any request of which may be refused: once, or from then on.  The answer is *)
(* a tree of blocks; the query asks for them parents first, and on a refusal  *)
(* gives back what it holds.  Explored for every query and every shape of     *)
(* answer within the bounds; each shape is then produced in the real code,    *)
(* with every failure pattern (lib/graph.py, `shapes`).                        *)
EXTENDS LedgerOps, FiniteSets, TLC, Json

CONSTANTS MaxRows,    \* nodes, endpoints or topics in the answer
          MaxTypes,   \* types of one topic
          EmitOn,
          Mistake     \* "none", or a wrong way to clean up: the properties must notice it

Kinds == {"names", "names2", "info", "nt"}
(* the blocks held are always 1..Got: the last one acquired is released first *)
(* shape of an answer: one number per row (types of that topic; 1 elsewhere) *)
Shapes(kind) ==
  IF kind = "nt" THEN UNION {[1..n -> 1..MaxTypes] : n \in 0..MaxRows}
  ELSE {[i \in 1..n |-> 1] : n \in 0..MaxRows}

RECURSIVE Sum(_, _)
Sum(sh, n) == IF n = 0 THEN 0 ELSE sh[n] + Sum(sh, n - 1)
(* number of blocks of a complete answer (arrays of no elements need none) *)
Blocks(kind, sh) ==
  LET n == Len(sh) IN
  IF n = 0 THEN 0 ELSE
  CASE kind = "names" -> 3 + 3 * n
    [] kind = "names2" -> 2 + 2 * n
    [] kind = "info" -> 1 + 3 * n
    [] kind = "nt" -> 2 + 2 * n + Sum(sh, n)

VARIABLES kind, shape,
          mode,    \* how requests fail from now on: "no", "may" (still undecided), "rest" (all from now on)
          phase,   \* "build", "undo", "ok", "error", "closed"
          s        \* the books
vars == <<kind, shape, mode, phase, s>>

Init ==
  /\ kind \in Kinds /\ shape \in Shapes(kind)
  /\ mode = "may" /\ phase = "build" /\ s = Fresh

Need == Blocks(kind, shape)
Got == Cardinality(s.held)
Acquire ==
  /\ phase = "build" /\ Got < Need /\ mode # "rest"
  /\ s' = Book(s, Got + 1)
  /\ UNCHANGED <<kind, shape, mode, phase>>
Refuse ==
  /\ phase = "build" /\ Got < Need /\ mode = "may"
  /\ s' = Book(s, 0)
  /\ mode' \in {"no", "rest"}
  /\ phase' = IF Mistake = "ignore" /\ Got + 1 = Need THEN "ok" ELSE "undo"
  /\ UNCHANGED <<kind, shape>>
Undo ==
  /\ phase = "undo" /\ s.held # {}
  /\ ~(Mistake = "leak" /\ Got = 1)
  /\ s' = IF Mistake = "twice" /\ Got = 1 THEN Books(s, <<-Got, -Got>>) ELSE Book(s, -Got)
  /\ UNCHANGED <<kind, shape, mode, phase>>
Return ==
  /\ \/ phase = "build" /\ Got = Need /\ phase' = "ok"
     \/ phase = "undo" /\ (s.held = {} \/ (Mistake = "leak" /\ Got = 1)) /\ phase' = "error"
  /\ UNCHANGED <<kind, shape, mode, s>>
CallerReleases ==
  /\ phase = "ok" /\ s.held # {}
  /\ s' = Book(s, -Got)
  /\ UNCHANGED <<kind, shape, mode, phase>>
Close ==
  /\ phase \in {"ok", "error"} /\ (phase = "ok" => s.held = {})
  /\ phase' = "closed" /\ UNCHANGED <<kind, shape, mode, s>>
Next == Acquire \/ Refuse \/ Undo \/ Return \/ CallerReleases \/ Close
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

(* every shape once, for the replay *)
Emit == EmitOn /\ phase' = "closed" /\ ~s.refused => PrintT("CASE" \o ToJson([kind |-> kind, shape |-> shape, blocks |-> Need]))

TypeOK == phase \in {"build", "undo", "ok", "error", "closed"} /\ mode \in {"no", "may", "rest"}
NeverTwice == ~s.bad
ErrorHoldsNothing == phase = "error" => ReturnOK(s, 1)
SuccessIsComplete == [][(phase # "ok" /\ phase' = "ok") =>
                          /\ ReturnOK(s', 0) /\ Cardinality(s'.held) = Need]_vars
AllReturned == phase = "closed" => ClosedOK(s)
RefusalIsReported == s.refused => phase # "ok"
Finishes == <>(phase = "closed")
=============================================================================
