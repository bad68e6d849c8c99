------------------------------ MODULE AvroNames ------------------------------
(* Names and namespaces as the Avro specification defines them.  A namespace is *)
(* a string, "" meaning none; a full name is the dotted string.                 *)
EXTENDS Naturals, Sequences

Ch(s, i) == SubSeq(s, i, i)

RECURSIVE LastDotFrom(_, _)
LastDotFrom(s, i) == IF i = 0 THEN 0
                     ELSE IF Ch(s, i) = "." THEN i ELSE LastDotFrom(s, i - 1)
LastDot(s) == LastDotFrom(s, Len(s))
IsDotted(s) == LastDot(s) > 0
NsOf(full) == LET d == LastDot(full) IN IF d = 0 THEN "" ELSE SubSeq(full, 1, d - 1)
SimpleOf(full) == LET d == LastDot(full) IN SubSeq(full, d + 1, Len(full))
Join(ns, name) == IF ns = "" THEN name ELSE ns \o "." \o name

(* The full name that a name written in namespace ns denotes. *)
Qualify(name, ns) == IF IsDotted(name) THEN Join(NsOf(name), SimpleOf(name)) ELSE Join(ns, name)

Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t",
            "u","v","w","x","y","z","A","B","C","D","E","F","G","H","I","J","K","L","M","N",
            "O","P","Q","R","S","T","U","V","W","X","Y","Z","_"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}

ValidSimple(s) == /\ Len(s) > 0
                  /\ Ch(s, 1) \in Letters
                  /\ \A i \in 2..Len(s) : Ch(s, i) \in Letters \cup Digits

RECURSIVE SplitDots(_, _, _)
SplitDots(s, i, from) ==
  IF i > Len(s) THEN <<SubSeq(s, from, Len(s))>>
  ELSE IF Ch(s, i) = "." THEN <<SubSeq(s, from, i - 1)>> \o SplitDots(s, i + 1, i + 1)
  ELSE SplitDots(s, i + 1, from)
Segments(s) == SplitDots(s, 1, 1)
ValidNs(ns) == ns = "" \/ \A i \in 1..Len(Segments(ns)) : ValidSimple(Segments(ns)[i])
ValidFull(full) == ValidSimple(SimpleOf(full)) /\ ValidNs(NsOf(full))
ValidAlias(a) == \A i \in 1..Len(Segments(a)) : ValidSimple(Segments(a)[i])

Primitives == {"null","boolean","int","long","float","double","bytes","string"}
ComplexNames == {"record","enum","array","map","union","fixed"}
LogicalKeywords == {"date","time_ms","timestamp_ms","local_timestamp_ms","uuid"}
BuiltinTypeNames == Primitives \cup LogicalKeywords
=============================================================================
