----------------------------- MODULE LedgerOps -----------------------------
(* What an allocator owner may see of one query: blocks are acquired and       *)
(* released, a request may be refused.  A log is a sequence of integers:       *)
(* n > 0 block n was acquired, -n block n was released, 0 a request (of        *)
(* non-zero size) was refused.  Releasing something that is not held is logged *)
(* under a number that was never acquired.                                     *)
EXTENDS Integers, Sequences, SequencesExt

Fresh == [held |-> {}, refused |-> FALSE, bad |-> FALSE]
Book(s, x) ==
  IF x = 0 THEN [s EXCEPT !.refused = TRUE]
  ELSE IF x > 0 THEN [s EXCEPT !.bad = @ \/ x \in s.held, !.held = @ \cup {x}]
  ELSE [s EXCEPT !.bad = @ \/ -x \notin s.held, !.held = @ \ {-x}]
Books(s, log) == FoldLeft(Book, s, log)

(* the books when the query returned with this code, and after the caller released the answer *)
ReturnOK(s, ret) ==
  /\ ~s.bad
  /\ ret # 0 => s.held = {}
  /\ s.refused => ret # 0
ClosedOK(s) == ~s.bad /\ s.held = {}
=============================================================================
