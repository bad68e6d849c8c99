------------------------------- MODULE MC_Annos -------------------------------
(* Every annotation name with every kind of value at every place, and pairs of       *)
(* annotations of one name.                                                          *)
EXTENDS AvdlWorlds

Custom == {"x", "y-z", "a.b-c", "Order", "alias", "java-class"}
Special == {"namespace", "aliases", "order"}
Structural == {"doc", "fields", "items", "name", "size", "symbols", "values", "type", "default", "protocol",
               "types", "messages", "errors", "request", "response", "one-way"}
LogicalNames == {"logicalType", "precision", "scale"}
ANames == Custom \cup Special \cup Structural \cup LogicalNames
AValues == {Str("a"), Str("n.b"), Str(""), Str("date"), Str("Descending"), Str("IGNORE"), Str("ascending"), Int("3"), Flt("2.5"), Null,
            Bool(TRUE), Arr(<<>>), Arr(<<Str("Old"), Str("n.Older"), Str("q.O")>>), Arr(<<Str("1x"), Str("n.1y.z")>>),
            Arr(<<Str("Old"), Int("1")>>), Obj(<<P("k", Arr(<<Null>>)), P("type", Str("v"))>>)}
An(n, v, b) == [n |-> n, v |-> v, id |-> b]

(* Base document with annotations as at one place. *)
Places == {"proto", "record", "error", "enum", "fixed", "field", "param", "msg", "prim", "date", "array", "map", "union",
           "opt", "item", "member", "ref", "optref", "dotted", "vals", "deep",
           "ptype", "parr", "puni", "popt", "pref", "pitem", "ritem"}
(* as: annotations numbered b+1 .. *)
TAn(t, as) == [t EXCEPT !.annos = as]
FieldTypeAt(place, as) ==
  CASE place = "prim" -> TAn(TPrim("int", 230), as)
  [] place = "date" -> TAn(TPrim("date", 230), as)
  [] place = "array" -> TAn(TArr(TPrim("int", 231), 230), as)
  [] place = "map" -> TAn(TMap(TPrim("int", 231), 230), as)
  [] place = "union" -> TAn(TUni(<<TPrim("null", 231), TPrim("int", 232)>>, 230), as)
  [] place = "opt" -> TAn([TPrim("int", 230) EXCEPT !.q = TRUE], as)
  [] place = "item" -> TArr(TAn(TPrim("string", 230), as), 220)
  [] place = "member" -> TUni(<<TPrim("null", 221), TAn(TPrim("bytes", 230), as)>>, 220)
  [] place = "vals" -> TMap(TAn(TArr(TPrim("int", 231), 230), as), 220)
  [] place = "deep" -> TArr(TUni(<<TPrim("null", 213), TMap(TAn(TPrim("uuid", 230), as), 214)>>, 212), 211)
  [] place = "ref" -> TAn(TRef("E", 230), as)
  [] place = "optref" -> TAn(TRefQ("E", 230), as)
  [] OTHER -> TPrim("long", 230)
(* types of a parameter and of a result; annotations before a result are the message's *)
ParamTypeAt(place, as) ==
  CASE place = "ptype" -> TAn(TPrim("string", 330), as)
  [] place = "parr" -> TAn(TArr(TPrim("int", 331), 330), as)
  [] place = "puni" -> TAn(TUni(<<TPrim("null", 331), TPrim("int", 332)>>, 330), as)
  [] place = "popt" -> TAn([TPrim("int", 330) EXCEPT !.q = TRUE], as)
  [] place = "pref" -> TAn(TRef("E", 330), as)
  [] place = "pitem" -> TArr(TAn(TPrim("long", 330), as), 320)
  [] OTHER -> TPrim("string", 330)
At2(place, p, as) == IF place = p THEN as ELSE <<>>
(* ids: protocol annotations 1-4; record 101-104; its field type 222-229, variable 240-244; ... *)
Shift(as, b) == TLCEval([i \in 1..Len(as) |-> [as[i] EXCEPT !.id = b + i]])
Doc(place, as) ==
  LET rk == IF place = "error" THEN "error" ELSE "record" IN
  UProto("P", <<NsAnno("n", 0)>> \o Shift(At2(place, "proto", as), 0),
   <<DEnum("E", Shift(At2(place, "enum", as), 10), <<"S", "T">>, 14),
     DFixed("X", Shift(At2(place, "fixed", as), 40), "8", 44),
     [DRecord(IF place = "dotted" THEN "q.R" ELSE "R", Shift(IF place \in {"record", "error", "dotted"} THEN as ELSE <<>>, 100),
              <<[doc |-> <<>>, type |-> FieldTypeAt(place, Shift(as, 222)),
                 vars |-> <<[FVar("f", <<>>, 250) EXCEPT !.annos = Shift(At2(place, "field", as), 240)], FVar("g", <<>>, 260)>>]>>, 110)
        EXCEPT !.k = rk],
     [DMsg("m", IF place = "ritem" THEN TMap(TAn(TPrim("int", 316), Shift(as, 311)), 315) ELSE TPrim("int", 316),
          <<[doc |-> <<>>, type |-> ParamTypeAt(place, Shift(as, 321)),
                vars |-> <<[FVar("p", <<>>, 345) EXCEPT !.annos = Shift(At2(place, "param", as), 340)]>>]>>, <<>>, FALSE, 310)
        EXCEPT !.annos = Shift(At2(place, "msg", as), 300)]>>)
(* values near to those that mean something *)
Near == {<<"order", v>> : v \in {Str(s) : s \in {" ignore", "ignore ", " ignore ", "", " ", "IgNoRe", "dESCENDING", "asc", "desc", "ignored", "ascending descending",
                                                "des cending", "Ascending\n", "decreasing", "none", "null", "true"}} \cup {Arr(<<Str("ignore")>>), Obj(<<P("order", Str("ignore"))>>)}}
   \cup {<<"namespace", v>> : v \in {Str(s) : s \in {" ", " n", "n ", "n.", ".n", "n..m", "1n", "n-m", "n.1", "N.m_2", "null", "int", "record", "n.int", "n/m"}}
                                 \cup {Arr(<<Str("n")>>), Obj(<<P("namespace", Str("n"))>>)}}
   \cup {<<"aliases", v>> : v \in {Str("Old")} \cup {Arr(<<Str(s)>>) : s \in {"", " ", "Old ", " n.Old", "n.", "n..Old", "n-Old", "n.Old-er", "int", "n.int", "null", "E", "f", "R", "n.R", "_"}}
                                 \cup {Arr(<<Str("Old"), Str("Old")>>), Arr(<<Arr(<<Str("Old")>>)>>), Arr(<<Null>>), Obj(<<P("Old", Str("n"))>>)}}
NearWorlds(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, Doc(place, <<An(x[1], x[2], 0)>>))>>, <<CFile(<<"m.avdl">>)>>) : place \in Places, x \in Near}
(* The mention of E in field types needs the namespace of the record. *)
AnnoWorlds(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, Doc(place, <<An(n, v, 0)>>))>>, <<CFile(<<"m.avdl">>)>>) :
     place \in Places, n \in ANames, v \in AValues}
PairWorlds(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, Doc(place, <<An(n1, v1, 0), An(n2, v2, 0)>>))>>, <<CFile(<<"m.avdl">>)>>) :
     place \in Places, n1 \in {"x", "y-z", "namespace", "aliases", "order"}, n2 \in {"x", "namespace", "aliases", "order"},
     v1 \in {Str("a"), Arr(<<Str("n.Old"), Str("9z")>>), Str("ignore")}, v2 \in {Str("b"), Arr(<<Str("q.Older")>>), Str("descending"), Int("1")}}
(* on the type of a schema line *)
MainWorlds(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, USchema(<<"n">>, t, <<DEnum("E", <<>>, <<"S">>, 20)>>))>>, <<CFile(<<"m.avdl">>)>>) :
     t \in {TAn(b, <<An(n, v, 7)>>) : n \in ANames, v \in AValues,
            b \in {TPrim("int", 9), TPrim("uuid", 9), TArr(TRef("E", 10), 9), TRef("E", 9), TUni(<<TRef("E", 10), TPrim("null", 11)>>, 9)}}}
=============================================================================
