---------------------------- MODULE AvroDefaults ----------------------------
(* When a JSON value is a default of a type.                                     *)
EXTENDS AvroSchema

NumberStrings == {"NaN", "Infinity", "-Infinity"}

PrimValid(v, n) ==
  CASE n = "null" -> v.t = "null"
  [] n = "boolean" -> v.t = "bool"
  [] n = "int" -> v.t = "int" /\ IsInt32(v.s)
  [] n = "long" -> v.t = "int" /\ IsInt64(v.s)
  [] n \in {"float", "double"} -> v.t \in {"int", "flt"} \/ (v.t = "str" /\ v.s \in NumberStrings)
  [] OTHER -> v.t = "str"

(* mode "shallow": a mention of a named type admits everything;                  *)
(* mode "deep": a mention admits what the definition admits, and everything when  *)
(* the type is not (yet) registered.                                              *)
RECURSIVE Valid(_, _, _, _)
Valid(v, s, reg, mode) ==
  CASE s.t = "prim" -> PrimValid(v, s.n)
  [] s.t = "arr" -> v.t = "arr" /\ \A i \in 1..Len(v.a) : Valid(v.a[i], s.of, reg, mode)
  [] s.t = "map" -> v.t = "obj" /\ \A i \in 1..Len(v.o) :
                      LastIdx(v.o, v.o[i].k, Len(v.o)) = i => Valid(v.o[i].v, s.of, reg, mode)
  [] s.t = "uni" -> \E i \in 1..Len(s.of) : Valid(v, s.of[i], reg, mode)
  [] s.t = "ref" -> IF mode = "shallow" \/ ~InReg(reg, s.full) THEN TRUE
                    ELSE Valid(v, Lookup(reg, s.full), reg, mode)
  [] s.t = "def" ->
       IF s.kind \in {"enum", "fixed"} THEN v.t = "str"
       ELSE /\ v.t = "obj"
            /\ \A i \in 1..Len(s.fields) :
                 LET f == s.fields[i] IN
                 IF HasKey(v.o, f.name) THEN Valid(ValOf(v.o, f.name), f.type, reg, mode)
                 ELSE f.dflt # <<>>

(* Whether every named type that s involves is registered. *)
RECURSIVE AllKnown(_, _, _)
AllKnown(todo, seen, reg) ==
  IF todo = {} THEN TRUE
  ELSE LET n == CHOOSE x \in todo : TRUE IN
       IF ~InReg(reg, n) THEN FALSE
       ELSE LET rs == RefsOf(Lookup(reg, n))
                more == {rs[i].full : i \in 1..Len(rs)} IN
            AllKnown((todo \cup more) \ (seen \cup {n}), seen \cup {n}, reg)
Involved(s) == LET rs == RefsOf(s) IN {rs[i].full : i \in 1..Len(rs)}

(* "bad": must be rejected at this declaration, "ok": must not, "open": the type   *)
(* involves a name declared only later and the value is wrong apart from that.     *)
DefaultVerdict(v, s, reg) ==
  IF Valid(v, s, reg, "deep") THEN "ok"
  ELSE IF AllKnown(Involved(s), {}, reg) \/ ~Valid(v, s, reg, "shallow") THEN "bad"
  ELSE "open"
=============================================================================
