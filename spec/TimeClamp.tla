----------------------------- MODULE TimeClamp -----------------------------
(* The clamping procedure, step by step over unbounded integers, for every pair *)
(* of 64-bit seconds and nanoseconds; decided symbolically by Apalache.         *)
EXTENDS Integers
VARIABLES
  \* @type: Int;
  sec,
  \* @type: Int;
  nsec,
  \* @type: Int;
  s,
  \* @type: Int;
  n,
  \* @type: Int;
  adj,
  \* @type: Bool;
  over,
  \* @type: Str;
  pc,
  \* @type: Int;
  sec2,
  \* @type: Int;
  nsec2
\* @type: Int;
U64 == 18446744073709551616
\* @type: Int;
MaxS == 2147483647
\* @type: Int;
G == 1000000000
Init ==
  /\ sec \in Int /\ nsec \in Int /\ sec2 \in Int /\ nsec2 \in Int
  /\ sec >= 0 /\ sec < U64 /\ nsec >= 0 /\ nsec < U64
  /\ sec2 >= 0 /\ sec2 < U64 /\ nsec2 >= 0 /\ nsec2 < U64
  /\ s = sec /\ n = nsec /\ adj = 0 /\ over = FALSE /\ pc = "adjust"
Adjust ==
  /\ pc = "adjust"
  /\ LET a == nsec \div G IN IF a > MaxS THEN adj' = MaxS /\ over' = TRUE ELSE adj' = a /\ over' = FALSE
  /\ pc' = "seconds" /\ UNCHANGED <<s, n, sec, nsec, sec2, nsec2>>
Seconds ==
  /\ pc = "seconds"
  /\ IF sec > MaxS - adj THEN s' = MaxS /\ over' = TRUE ELSE s' = sec + adj /\ over' = over
  /\ pc' = "nanoseconds" /\ UNCHANGED <<n, adj, sec, nsec, sec2, nsec2>>
Nanoseconds ==
  /\ pc = "nanoseconds"
  /\ n' = IF over THEN G - 1 ELSE nsec - adj * G
  /\ pc' = "done" /\ UNCHANGED <<s, adj, over, sec, nsec, sec2, nsec2>>
Next == Adjust \/ Seconds \/ Nanoseconds \/ (pc = "done" /\ UNCHANGED <<sec, nsec, s, n, adj, over, pc, sec2, nsec2>>)

Total(a, b) == a * G + b
Limit == Total(MaxS, G - 1)
(* what the result must be, for any duration *)
ClampTotal(t) == IF t <= Limit THEN t ELSE Limit
Done == pc = "done"
InRange == Done => s >= 0 /\ s <= MaxS /\ n >= 0 /\ n < G
Exact == Done => Total(s, n) = ClampTotal(Total(sec, nsec))
(* intermediate values stay 64-bit unsigned *)
NoWrap == adj >= 0 /\ adj <= MaxS /\ s < U64 /\ n < U64 /\ n >= 0
Idempotent == Done => ClampTotal(Total(s, n)) = Total(s, n)
Monotonic == Done => (Total(sec, nsec) <= Total(sec2, nsec2) => Total(s, n) <= ClampTotal(Total(sec2, nsec2)))
Inv == InRange /\ Exact /\ NoWrap /\ Idempotent /\ Monotonic
=============================================================================
