---------------------------- MODULE TypeHashOps ----------------------------
(* Type hashes in user data.  Texts are sequences of byte values.             *)
EXTENDS Integers, Sequences, FiniteSets

Digit == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
Key == <<116, 121, 112, 101, 104, 97, 115, 104>>                      \* typehash
RihsPrefix == <<82, 73, 72, 83, 48, 49, 95>>                            \* RIHS01_
Eq == 61
Semi == 59
RECURSIVE Hex(_)
Hex(bs) == IF bs = <<>> THEN <<>>
           ELSE <<Digit[(Head(bs) \div 16) + 1], Digit[(Head(bs) % 16) + 1]>> \o Hex(Tail(bs))
Unset(size) == [version |-> 0, value |-> [i \in 1..size |-> 0]]

Text(h) == RihsPrefix \o Hex(h.value)
Encode(h) == IF h.version = 0 THEN <<>> ELSE Key \o <<Eq>> \o Text(h) \o <<Semi>>

(* ------------------------------------------------------------- user data -- *)
IsAlnum(b) == (b \in 48..57) \/ (b \in 65..90) \/ (b \in 97..122)
Contains(d, w) == \E i \in 0..(Len(d) - Len(w)) : SubSeq(d, i + 1, i + Len(w)) = w
(* positions of the entries of key=value;key=value; data *)
Ends(d) == {i \in 1..Len(d) : d[i] = Semi} \cup (IF d # <<>> /\ d[Len(d)] # Semi THEN {Len(d) + 1} ELSE {})
EntryOf(d, e) ==
  LET before == {j \in Ends(d) : j < e}
      from == IF before = {} THEN 0 ELSE CHOOSE j \in before : \A k \in before : k <= j
  IN SubSeq(d, from + 1, e - 1)
EqAt(x) == LET S == {i \in 1..Len(x) : x[i] = Eq} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
GoodEntry(x) == LET q == EqAt(x) IN q > 1 /\ q < Len(x) /\ \A i \in 1..(q - 1) : IsAlnum(x[i])
KeyOf(x) == SubSeq(x, 1, EqAt(x) - 1)
ValueOf(x) == SubSeq(x, EqAt(x) + 1, Len(x))
WellFormed(d) == d # <<>> /\ \A e \in Ends(d) : GoodEntry(EntryOf(d, e))
HashEntries(d) == {e \in Ends(d) : KeyOf(EntryOf(d, e)) = Key}

(* ------------------------------------------------------------ hash texts -- *)
HexVal(b) == IF b \in 48..57 THEN b - 48 ELSE IF b \in 97..102 THEN b - 87 ELSE IF b \in 65..70 THEN b - 55 ELSE 0 - 1
GoodText(t, size) ==
  /\ Len(t) = Len(RihsPrefix) + 2 * size
  /\ SubSeq(t, 1, Len(RihsPrefix)) = RihsPrefix
  /\ \A i \in (Len(RihsPrefix) + 1)..Len(t) : HexVal(t[i]) >= 0
HashOf(t, size) ==
  [version |-> 1,
   value |-> [i \in 1..size |-> 16 * HexVal(t[Len(RihsPrefix) + 2 * i - 1]) + HexVal(t[Len(RihsPrefix) + 2 * i])]]

(* The answers a parse of d may give: a set of [ret, hash], "any" standing for *)
(* an unspecified hash.  Data that is not well formed but mentions the key is  *)
(* left open (the reader of key=value data decides what it salvages).          *)
Any == [version |-> 0 - 1, value |-> <<>>]
Answers(d, size) ==
  LET none == {[ret |-> "OK", hash |-> Unset(size)]}
      bad == {[ret |-> "ERROR", hash |-> Any]}
  IN IF ~Contains(d, Key) THEN none
     ELSE IF ~WellFormed(d) THEN none \cup bad \cup {[ret |-> "OK", hash |-> Any]}
     ELSE LET es == HashEntries(d) IN
          IF es = {} THEN none
          ELSE IF Cardinality(es) > 1 THEN none \cup bad \cup {[ret |-> "OK", hash |-> Any]}
          ELSE LET t == ValueOf(EntryOf(d, CHOOSE e \in es : TRUE))
               IN IF \E i \in 1..Len(t) : t[i] = 0 THEN bad \cup {[ret |-> "OK", hash |-> Any]}
                  ELSE IF GoodText(t, size) THEN {[ret |-> "OK", hash |-> HashOf(t, size)]}
                  \* what stands between version and digits is for the reader of hash texts to judge
                  ELSE IF Len(t) >= Len(RihsPrefix) /\ GoodText([t EXCEPT ![Len(RihsPrefix)] = 95], size)
                  THEN bad \cup {[ret |-> "OK", hash |-> HashOf(t, size)]}
                  ELSE bad
=============================================================================
