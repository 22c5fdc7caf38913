----------------------------- MODULE SecurityOps -----------------------------
(* What a lookup of security files must answer, as a function of the files   *)
(* of one enclave and the arguments of the call.                             *)
(*                                                                           *)
(* An enclave is a map from the eleven file names to entries                 *)
(*   [type, readable, text]: type "file" (leads, through links if any, to a  *)
(*   regular file), "dir" (leads to anything else: a directory, pipe, ...) or "none" (missing, dangling*)
(*   or cyclic link, not accessible); text the bytes of the file.            *)
(* Texts, prefixes and paths are sequences of byte values.                   *)
EXTENDS Integers, Sequences, FiniteSets

Mandatory == {"IDENTITY_CA", "CERTIFICATE", "PRIVATE_KEY", "PERMISSIONS_CA", "GOVERNANCE", "PERMISSIONS"}
Optional == {"CRL"}
Attributes == Mandatory \cup Optional
P11Attributes == {"IDENTITY_CA", "CERTIFICATE", "PRIVATE_KEY", "PERMISSIONS_CA"}

FileOf(a) ==
  CASE a = "IDENTITY_CA" -> "identity_ca.cert.pem"
    [] a = "CERTIFICATE" -> "cert.pem"
    [] a = "PRIVATE_KEY" -> "key.pem"
    [] a = "PERMISSIONS_CA" -> "permissions_ca.cert.pem"
    [] a = "GOVERNANCE" -> "governance.p7s"
    [] a = "PERMISSIONS" -> "permissions.p7s"
    [] a = "CRL" -> "crl.pem"
P11Of(a) ==
  CASE a = "IDENTITY_CA" -> "identity_ca.cert.p11"
    [] a = "CERTIFICATE" -> "cert.p11"
    [] a = "PRIVATE_KEY" -> "key.p11"
    [] a = "PERMISSIONS_CA" -> "permissions_ca.cert.p11"
FileNames == {FileOf(a) : a \in Attributes} \cup {P11Of(a) : a \in P11Attributes}

(* names as byte sequences *)
Alphabet == "abcdefghijklmnopqrstuvwxyz"
ByteOf(ch) ==
  CASE ch = "." -> 46 [] ch = "_" -> 95 [] ch = "1" -> 49 [] ch = "7" -> 55
    [] OTHER -> 96 + (CHOOSE i \in 1..26 : SubSeq(Alphabet, i, i) = ch)
NameBytes == [n \in FileNames |-> [i \in 1..Len(n) |-> ByteOf(SubSeq(n, i, i))]]

NoEntry == [type |-> "none", readable |-> FALSE, text |-> <<>>]
EmptyEnclave == [f \in FileNames |-> NoEntry]

White == {9, 10, 11, 12, 13, 32}
P11Prefix == <<112, 107, 99, 115, 49, 49, 58>>   \* "pkcs11:"
(* first whitespace-separated word, <<>> if there is none *)
FirstWord(t) ==
  LET ink == {i \in 1..Len(t) : t[i] \notin White}
  IN IF ink = {} THEN <<>>
     ELSE LET b == CHOOSE i \in ink : \A j \in ink : i <= j
              stop == {i \in b..Len(t) : t[i] \in White}
              e == IF stop = {} THEN Len(t) + 1 ELSE CHOOSE i \in stop : \A j \in stop : i <= j
          IN SubSeq(t, b, e - 1)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

IsFile(x) == x.type = "file"
IsP11(x) == x.type = "file" /\ x.readable /\ StartsWith(FirstWord(x.text), P11Prefix)

(* where an attribute comes from: "p11", "file" or "none" *)
Source(enc, pkcs, a) ==
  IF pkcs /\ a \in P11Attributes /\ IsP11(enc[P11Of(a)]) THEN "p11"
  ELSE IF IsFile(enc[FileOf(a)]) THEN "file"
  ELSE "none"
Complete(enc, pkcs) == \A a \in Mandatory : Source(enc, pkcs, a) # "none"
Reported(enc, pkcs) ==
  IF Complete(enc, pkcs) THEN {a \in Attributes : Source(enc, pkcs, a) # "none"} ELSE {}
(* the abstract answer: which attributes, and the source of each *)
Answer(enc, pkcs) == [a \in Reported(enc, pkcs) |-> Source(enc, pkcs, a)]
=============================================================================
