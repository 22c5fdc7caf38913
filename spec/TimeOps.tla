------------------------------- MODULE TimeOps -------------------------------
(* Clamping a duration to what DDS can hold: below one second of nanoseconds,   *)
(* at most 2^31 - 1 seconds.  Numbers are sequences of seven limbs of three      *)
(* decimal digits, most significant first, so 64-bit values fit TLC's integers.  *)
EXTENDS Integers, Sequences

Limbs == 7
Zero == [i \in 1..Limbs |-> 0]
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
  IF i = 0 THEN <<>>
  ELSE LET t == a[i] + b[i] + carry IN AddFrom(a, b, i - 1, t \div 1000) \o <<t % 1000>>
Add(a, b) == AddFrom(a, b, Limbs, 0)        \* never overflows 21 digits for the values used
Below(a, b) == \E i \in 1..Limbs : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
AtMost(a, b) == a = b \/ Below(a, b)
Billion == 3                                \* limbs below one billion
WholeSeconds(ns) == [i \in 1..Limbs |-> IF i <= Billion THEN 0 ELSE ns[i - Billion]]
Rest(ns) == [i \in 1..Limbs |-> IF i <= Limbs - Billion THEN 0 ELSE ns[i]]

MaxSec == <<0, 0, 0, 2, 147, 483, 647>>
MaxNsec == <<0, 0, 0, 0, 999, 999, 999>>
Largest == [sec |-> MaxSec, nsec |-> MaxNsec]

(* the exact duration, normalized *)
Normal(t) == [sec |-> Add(t.sec, WholeSeconds(t.nsec)), nsec |-> Rest(t.nsec)]
Clamp(t) == LET n == Normal(t) IN IF AtMost(n.sec, MaxSec) THEN n ELSE Largest

Earlier(a, b) == Below(a.sec, b.sec) \/ (a.sec = b.sec /\ Below(a.nsec, b.nsec))
=============================================================================
