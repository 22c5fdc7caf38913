------------------------------- MODULE GidOps -------------------------------
(* Endpoint ids: sequences of byte values.                                     *)
EXTENDS Integers, Sequences
GidLess(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexByte(b) == IF b < 16 THEN HexDigit[b + 1] ELSE HexDigit[(b \div 16) + 1] \o HexDigit[(b % 16) + 1]
RECURSIVE Shown(_)
Shown(a) == IF Len(a) = 1 THEN HexByte(a[1]) ELSE HexByte(Head(a)) \o "." \o Shown(Tail(a))
=============================================================================
