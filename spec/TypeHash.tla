------------------------------ MODULE TypeHash ------------------------------
(* User data is built entry by entry, then read back: the hash put in is the   *)
(* hash read, whatever surrounds it.  Hashes of one byte keep the model small. *)
EXTENDS TypeHashOps, TLC
CONSTANTS MaxOthers
Size == 1
Hashes == {Unset(Size)} \cup {[version |-> 1, value |-> <<b>>] : b \in {0, 9, 10, 61, 59, 160, 255}}
(* other entries, some nearly the key *)
Others == {<<97, Eq, 49>>, <<84>> \o SubSeq(Key, 2, 8) \o <<Eq, 120>>, Key \o <<97, Eq, 98>>, SubSeq(Key, 1, 7) \o <<Eq, 99>>,
           <<97, Eq>> \o Key \o <<Eq, 122>>, <<98, Eq, Eq>>, <<99, Eq, 0, 255>>}
VARIABLES hash, data, n, put
vars == <<hash, data, n, put>>
Init == hash \in Hashes /\ data = <<>> /\ n = 0 /\ put = FALSE
AddOther == n < MaxOthers /\ n' = n + 1 /\ (\E o \in Others : data' = data \o o \o <<Semi>>) /\ UNCHANGED <<hash, put>>
AddHash == ~put /\ put' = TRUE /\ data' = data \o Encode(hash) /\ UNCHANGED <<hash, n>>
Next == AddOther \/ AddHash
Spec == Init /\ [][Next]_vars
(* C19 *)
RoundTrip == IF put THEN Answers(data, Size) = {[ret |-> "OK", hash |-> hash]}
             ELSE Answers(data, Size) = {[ret |-> "OK", hash |-> Unset(Size)]}
Injective == \A h \in Hashes : Encode(h) = Encode(hash) => h = hash
(* damage to one character of the hash never yields another accepted hash silently *)
(* unless the damage is itself another hexadecimal digit; what separates version and *)
(* digits is left to the reader of hash texts                                        *)
Damage == (put /\ hash.version = 1 /\ n = 0) =>
   \A i \in ((Len(Key) + 2)..(Len(data) - 1)) \ {Len(Key) + 1 + Len(RihsPrefix)}, b \in {0, 32, 47, 58, 71, 96, 103, 255} :
      LET d == [data EXCEPT ![i] = b]
      IN \A a \in Answers(d, Size) : a.ret = "OK" => a.hash # hash
=============================================================================
