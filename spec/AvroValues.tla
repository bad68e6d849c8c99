----------------------------- MODULE AvroValues -----------------------------
(* JSON values as records tagged by kind.  Integers are decimal digit strings    *)
(* (TLC's own integers have 32 bits), objects are sequences of key/value pairs.  *)
EXTENDS Naturals, Sequences, TLC, AvroNames

Null == [t |-> "null"]
Bool(b) == [t |-> "bool", b |-> b]
Int(s) == [t |-> "int", s |-> s]
Flt(s) == [t |-> "flt", s |-> s]
Str(s) == [t |-> "str", s |-> s]
Arr(a) == [t |-> "arr", a |-> a]
Obj(o) == [t |-> "obj", o |-> o]
P(k, v) == [k |-> k, v |-> v]

Map1(f(_), q) == TLCEval([i \in 1..Len(q) |-> f(q[i])])

Keys(o) == {o[i].k : i \in 1..Len(o)}
RECURSIVE LastIdx(_, _, _)
LastIdx(o, k, i) == IF i = 0 THEN 0 ELSE IF o[i].k = k THEN i ELSE LastIdx(o, k, i - 1)
HasKey(o, k) == LastIdx(o, k, Len(o)) > 0
ValOf(o, k) == o[LastIdx(o, k, Len(o))].v          \* the last of duplicates counts
HasStr(o, k) == HasKey(o, k) /\ ValOf(o, k).t = "str"
HasArr(o, k) == HasKey(o, k) /\ ValOf(o, k).t = "arr"

(* The pairs of o without the given keys, the last of duplicate keys winning. *)
RECURSIVE Without(_, _, _)
Without(o, ks, i) ==
  IF i > Len(o) THEN <<>>
  ELSE (IF o[i].k \in ks \/ LastIdx(o, o[i].k, Len(o)) # i THEN <<>> ELSE <<o[i]>>)
       \o Without(o, ks, i + 1)
Extra(o, ks) == Without(o, ks, 1)

(* Merge q into p, q winning. *)
Merge(p, q) == Extra(p \o q, {})

RECURSIVE SelectStrs(_, _)
SelectStrs(a, i) == IF i > Len(a) THEN <<>>
                    ELSE (IF a[i].t = "str" THEN <<a[i].s>> ELSE <<>>) \o SelectStrs(a, i + 1)

(* ------------------------- integers as digit strings ---------------------- *)
DigitVal == [d \in Digits |-> CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3
             [] d = "4" -> 4 [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8
             [] d = "9" -> 9]
IsNeg(s) == Len(s) > 0 /\ Ch(s, 1) = "-"
Mag(s) == IF IsNeg(s) THEN SubSeq(s, 2, Len(s)) ELSE s
RECURSIVE MagLeqFrom(_, _, _)
MagLeqFrom(a, b, i) ==                                  \* same length
  IF i > Len(a) THEN TRUE
  ELSE IF Ch(a, i) = Ch(b, i) THEN MagLeqFrom(a, b, i + 1)
  ELSE DigitVal[Ch(a, i)] < DigitVal[Ch(b, i)]
MagLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ MagLeqFrom(a, b, 1))
(* canonical decimal strings: no leading zeros, no "-0" *)
InRange(s, negMag, posMag) == IF IsNeg(s) THEN MagLeq(Mag(s), negMag) ELSE MagLeq(s, posMag)
IsInt32(s) == InRange(s, "2147483648", "2147483647")
IsInt64(s) == InRange(s, "9223372036854775808", "9223372036854775807")
IsU32(s) == ~IsNeg(s) /\ MagLeq(s, "4294967295")
=============================================================================
