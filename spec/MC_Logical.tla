------------------------------ MODULE MC_Logical ------------------------------
(* Logical types: keywords, annotations and JSON attributes on every base type,      *)
(* with parameters that fit, do not fit, or are not numbers at all.                  *)
EXTENDS AvdlWorlds

LTypes == {"date", "time-millis", "time-micros", "timestamp-millis", "timestamp-micros", "timestamp-nanos",
           "local-timestamp-millis", "local-timestamp-micros", "uuid", "decimal", "duration", "big-decimal", "Date", ""}
Prec == {<<>>, <<Int("0")>>, <<Int("5")>>, <<Int("38")>>, <<Int("-1")>>, <<Str("5")>>, <<Int("4294967296")>>,
         <<Flt("4.5")>>, <<Bool(TRUE)>>, <<Null>>, <<Int("9223372036854775807")>>, <<Arr(<<Int("5")>>)>>}
Scale == {<<>>, <<Int("0")>>, <<Int("2")>>, <<Int("6")>>, <<Int("-1")>>, <<Str("x")>>, <<Null>>, <<Flt("0.5")>>, <<Bool(FALSE)>>}
(* attributes as a sequence of pairs *)
Attrs(l, p, s, x) ==
  (IF l = <<>> THEN <<>> ELSE <<P("logicalType", l[1])>>) \o (IF p = <<>> THEN <<>> ELSE <<P("precision", p[1])>>)
  \o (IF s = <<>> THEN <<>> ELSE <<P("scale", s[1])>>) \o (IF x THEN <<P("extra", Arr(<<Int("1")>>))>> ELSE <<>>)
AsAnnos(ps, b) == TLCEval([i \in 1..Len(ps) |-> [n |-> ps[i].k, v |-> ps[i].v, id |-> b + i]])
Proto(items) == MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", <<>>, items))>>, <<CFile(<<"m.avdl">>)>>)

Typed(t, ps) == [t EXCEPT !.annos = AsAnnos(ps, 110)]
InPlace(t, place) ==
  CASE place = "field" -> t
  [] place = "item" -> TArr(t, 109)
  [] OTHER -> TUni(<<TPrim("null", 105), t, TPrim("boolean", 130)>>, 104)
Rec(t) == <<DRecord("R", <<>>, <<FField(t, "f", 150)>>, 90)>>
(* @logicalType and its parameters on primitives *)
AnnotatedWorlds(deep) ==
  {Proto(Rec(InPlace(Typed(TPrim(n, 120), Attrs(<<Str(l)>>, <<>>, <<>>, x)), place))) :
     n \in Primitives, l \in LTypes, x \in {TRUE, FALSE}, place \in {"field", "item", "member"}}
  \cup {Proto(Rec(Typed(TPrim(n, 120), Attrs(<<l>>, p, s, x)))) :
          n \in (IF deep THEN Primitives ELSE {"bytes", "int"}), l \in {Str("decimal"), Int("7")}, p \in Prec, s \in Scale, x \in {TRUE, FALSE}}
  \cup {Proto(Rec(InPlace(Typed(TPrim(n, 120), Attrs(<<Str(l)>>, p, s, FALSE)), place))) :
          n \in {"int", "long", "string", "bytes", "double"}, l \in {"date", "time-millis", "timestamp-millis", "local-timestamp-micros", "uuid", "duration"},
          p \in {<<>>, <<Int("5")>>, <<Str("5")>>}, s \in {<<>>, <<Int("2")>>}, place \in (IF deep THEN {"field", "item", "member"} ELSE {"field"})}
  \cup {Proto(Rec([Typed(TPrim(n, 120), Attrs(<<Str(l)>>, p, <<>>, FALSE)) EXCEPT !.q = TRUE])) :
          n \in Primitives \ {"null"}, l \in {"date", "uuid", "decimal", "timestamp-millis"}, p \in {<<>>, <<Int("4")>>}}
(* keywords with further attributes, also those that repeat what the keyword says *)
Dec(q, ps) == [k |-> "dec", p |-> [s |-> "5", id |-> 121], s |-> <<[s |-> "2", id |-> 122]>>, q |-> q,
               annos |-> AsAnnos(ps, 110), id |-> 120]
KeywordWorlds(deep) ==
  {Proto(Rec(InPlace([Typed(TPrim(n, 120), Attrs(l, p, <<>>, x)) EXCEPT !.q = q], place))) :
     n \in LogicalKeywords, l \in {<<>>} \cup {<<Str(z)>> : z \in {"date", "uuid", "time-millis", "timestamp-millis", "local-timestamp-millis", "x"}},
     p \in {<<>>, <<Int("4")>>}, x \in {TRUE, FALSE}, q \in {FALSE}, place \in {"field", "item", "member"}}
  \cup {Proto(Rec(Dec(q, Attrs(l, p, s, x)))) :
          q \in {TRUE, FALSE}, l \in {<<>>, <<Str("decimal")>>, <<Str("date")>>, <<Null>>}, p \in Prec, s \in Scale, x \in {TRUE, FALSE}}
(* two members of a union whose base types agree or differ *)
LT(n, l, b) == IF l = "" THEN TPrim(n, b) ELSE [TPrim(n, b) EXCEPT !.annos = <<[n |-> "logicalType", v |-> Str(l), id |-> b - 1]>>]
UnionWorlds(deep) ==
  {Proto(Rec(TUni(<<LT(n1, l1, 112), LT(n2, l2, 122)>>, 100))) :
     n1 \in {"int", "long", "bytes", "string", "date", "uuid"}, n2 \in {"int", "long", "bytes", "string", "time_ms", "timestamp_ms"},
     l1 \in {"", "date", "timestamp-micros", "my"}, l2 \in {"", "uuid", "time-millis", "my"}}
(* on named types *)
FixedWorlds(deep) ==
  {Proto(<<DFixed("F", AsAnnos(Attrs(<<Str(l)>>, p, s, FALSE), 90), n, 100)>>) :
     l \in LTypes, p \in {<<>>, <<Int("5")>>, <<Int("40")>>}, s \in {<<>>, <<Int("2")>>}, n \in {"4", "12", "16"}}
  \cup {Proto(<<DRecord("F", AsAnnos(Attrs(<<Str(l)>>, <<>>, <<>>, TRUE), 90), <<>>, 100)>>) : l \in LTypes}
(* in imported JSON: the same attributes *)
J(o) == Obj(o)
JRec(tj) == J(<<P("type", Str("record")), P("name", Str("JR")), P("fields", Arr(<<J(<<P("name", Str("f")), P("type", tj)>>)>>))>>)
JsonWorld(s) == MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", <<>>, <<DImport("schema", <<"j.avsc">>, 20)>>)), FJson(<<"j.avsc">>, s)>>,
                       <<CFile(<<"m.avdl">>)>>)
JsonWorlds(deep) ==
  {JsonWorld(JRec(J(<<P("type", Str(n))>> \o Attrs(<<Str(l)>>, <<>>, <<>>, x)))) : n \in Primitives, l \in LTypes, x \in {TRUE, FALSE}}
  \cup {JsonWorld(JRec(J(<<P("type", Str(n))>> \o Attrs(<<Str("decimal")>>, p, s, x)))) :
          n \in {"bytes", "int"}, p \in Prec, s \in Scale, x \in {TRUE, FALSE}}
  \cup {JsonWorld(JRec(J(<<P("type", Str(n))>> \o Attrs(<<Str(l)>>, p, s, FALSE)))) :
          n \in {"int", "long", "string", "bytes"}, l \in {"date", "time-millis", "timestamp-micros", "uuid", "duration"},
          p \in {<<>>, <<Int("5")>>, <<Str("5")>>}, s \in {<<>>, <<Int("2")>>}}
  \cup {JsonWorld(JRec(Arr(<<Str("null"), J(<<P("type", Str(n))>> \o Attrs(<<Str(l)>>, <<Int("3")>>, <<>>, FALSE))>>))) :
          n \in Primitives \ {"null"}, l \in LTypes}
  \cup {JsonWorld(J(<<P("type", Str("fixed")), P("name", Str("F")), P("size", Int(n))>> \o Attrs(<<Str(l)>>, p, s, FALSE))) :
          l \in LTypes, p \in {<<>>, <<Int("5")>>, <<Int("40")>>}, s \in {<<>>, <<Int("2")>>}, n \in {"4", "12", "16"}}
  \cup {JsonWorld(JRec(J(<<P("type", Str(k)), P(IF k = "array" THEN "items" ELSE "values", Str("int"))>> \o Attrs(<<Str(l)>>, <<>>, <<>>, FALSE)))) :
          k \in {"array", "map"}, l \in LTypes}
=============================================================================
