------------------------------- MODULE MC_Places -------------------------------
(* Every way of breaking a rule, at its place: in the main file, in an imported file,  *)
(* in a file that one imports through an import directory, behind other declarations,  *)
(* annotations and comments.                                                           *)
EXTENDS AvdlWorlds

An(n, v, b) == [n |-> n, v |-> v, id |-> b]
Orph(text, b) == [k |-> "orphan", id |-> b, text |-> text]
Dec(p, s, b) == [k |-> "dec", p |-> [s |-> p, id |-> b + 1], s |-> <<[s |-> s, id |-> b + 2]>>, q |-> FALSE, annos |-> <<>>, id |-> b]
Rec(fs) == DRecord("Bad", <<>>, fs, 200)
F(t) == Rec(<<FField(TPrim("int", 205), "ok", 207), FField(t, "f", 280)>>)
FD(t, d) == Rec(<<FField(TPrim("int", 205), "ok", 207), FFieldD(t, "f", d, 280)>>)
Param(t, n, b) == [doc |-> <<>>, type |-> t, vars |-> <<FVar(n, <<>>, b)>>]
Wrap(t, k) == CASE k = "array" -> TArr(t, 215) [] k = "map" -> TMap(TArr(t, 216), 215) [] k = "union" -> TUni(<<TPrim("null", 216), t>>, 215) [] OTHER -> t
Wraps == {"plain", "array", "map", "union"}
BadTypes == {TUni(<<TPrim("int", 231), TPrim("string", 232), TPrim("int", 233)>>, 230), TUni(<<TRef("Ok", 231), TArr(TPrim("int", 233), 232), TRef("Ok", 234)>>, 230),
             TUni(<<TPrim("int", 231), TUni(<<TPrim("null", 233), TPrim("long", 234)>>, 232)>>, 230), [TPrim("null", 230) EXCEPT !.q = TRUE],
             TUni(<<TPrim("int", 231), [TPrim("long", 232) EXCEPT !.q = TRUE]>>, 230),
             Dec("0", "0", 230), Dec("3", "4", 230), Dec("4294967296", "1", 230), Dec("-1", "1", 230), Dec("3", "-1", 230),
             [TRef("Ok", 230) EXCEPT !.annos = <<An("x", Int("1"), 225)>>], [TPrim("int", 230) EXCEPT !.annos = <<An("y", Int("1"), 224), An("type", Str("z"), 225)>>],
             [TPrim("date", 230) EXCEPT !.annos = <<An("logicalType", Str("uuid"), 225)>>], TArr([TPrim("int", 231) EXCEPT !.annos = <<An("name", Str("z"), 229)>>], 230),
             TRef("Nope", 230), TRef("q.Nope", 230)}
TypeItems == {<<F(Wrap(t, k))>> : t \in BadTypes, k \in Wraps \ {"union"}}
             \cup {<<F(TUni(<<TPrim("null", 216), t>>, 215))>> : t \in {x \in BadTypes : x.k # "uni" /\ ~(x.k = "prim" /\ x.q)}}
             \cup {<<DMsg("m", t, <<>>, <<>>, FALSE, 200)>> : t \in {x \in BadTypes : x.annos = <<>>}}
             \cup {<<DMsg("m", TVoid(205), <<Param(TPrim("int", 206), "a", 207), Param(t, "b", 280)>>, <<>>, FALSE, 200)>> : t \in BadTypes}
DefaultItems == {<<FD(t, <<d>>)>> : t \in {TPrim("int", 210), TArr(TPrim("long", 211), 210), TRef("Ok", 210), [TPrim("boolean", 210) EXCEPT !.q = TRUE]},
                                    d \in {Str("x"), Arr(<<Str("x")>>), Obj(<<P("ok", Str("x"))>>), Flt("1.5")}}
                \cup {<<DMsg("m", TVoid(205), <<[doc |-> <<>>, type |-> TPrim("int", 210), vars |-> <<FVar("a", <<Str("x")>>, 280)>>]>>, <<>>, FALSE, 200)>>}
AnnoItems == {<<DRecord("Bad", <<An("x", Int("1"), 201), An(n, v, 202)>>, <<>>, 203)>> :
                n \in {"namespace", "aliases", "fields", "doc"}, v \in {Int("1"), Arr(<<Int("1")>>)}}
             \cup {<<Rec(<<[doc |-> <<"d">>, type |-> TPrim("int", 210), vars |-> <<[FVar("f", <<>>, 280) EXCEPT !.annos = <<An("x", Null, 270), An(n, v, 271)>>]>>]>>)>> :
                n \in {"order", "aliases", "default", "type"}, v \in {Int("1"), Str("sideways")}}
             \cup {<<[DMsg("m", TPrim("int", 215), <<>>, <<>>, FALSE, 210) EXCEPT !.annos = <<An("x", Null, 201), An(n, Int("1"), 202)>>]>> : n \in {"request", "one-way"}}
             \cup {<<[DMsg("m", TRef("Ok", 215), <<>>, <<>>, FALSE, 210) EXCEPT !.annos = <<An("x", Null, 201)>>]>>}
DeclItems == {<<DRecord(n, a, <<FField(TPrim("int", 210), "f", 220)>>, 202)>> : n \in {"int", "date", "q.string", "Ok", "x-y", "n.Ok"}, a \in {<<>>, <<An("x", Int("1"), 201)>>}}
             \cup {<<DRecord("Z", <<An("x", Int("1"), 201), NsAnno(n, 202)>>, <<>>, 203)>> : n \in {"1a", "a..b", "n"}}
             \cup {<<DEnum("Bad", <<>>, s, 200)>> : s \in {<<"A", "B", "A">>, <<"A", "A", "A">>}}
             \cup {<<[DEnum("Bad", <<>>, <<"A", "B">>, 200) EXCEPT !.dflt = <<[s |-> "C", id |-> 250]>>]>>, <<DEnum("uuid", <<>>, <<"A">>, 200)>>,
                   <<DFixed("Bad", <<>>, "4294967296", 200)>>, <<DFixed("Bad", <<>>, "-1", 200)>>, <<DFixed("Ok", <<>>, "1", 200)>>, <<DFixed("long", <<>>, "1", 200)>>,
                   <<Rec(<<FField(TPrim("int", 210), "f", 220), FField(TPrim("long", 230), "f", 240)>>)>>,
                   <<Rec(<<[doc |-> <<>>, type |-> TPrim("int", 210), vars |-> <<FVar("f", <<>>, 220), FVar("g", <<>>, 230), FVar("f", <<>>, 240)>>]>>)>>,
                   <<DMsg("m", TVoid(205), <<Param(TPrim("int", 210), "a", 220), Param(TPrim("int", 230), "a", 240)>>, <<>>, FALSE, 200)>>,
                   <<DMsg("m", TPrim("int", 205), <<>>, <<>>, TRUE, 200)>>,
                   <<DMsg("m", TVoid(205), <<>>, <<[n |-> "Nope", id |-> 210], [n |-> "Ok", id |-> 211]>>, FALSE, 200)>>}
ImportItems == {<<DImport("idl", <<"gone.avdl">>, 200)>>, <<DImport("schema", <<"gone.avsc">>, 200)>>, <<DImport("protocol", <<"s", "gone.avpr">>, 200)>>,
                <<DImport("schema", <<"bad.json">>, 200)>>, <<DImport("protocol", <<"bad.json">>, 200)>>, <<DImport("idl", <<"bad.avdl">>, 200)>>,
                <<DImport("protocol", <<"arr.json">>, 200)>>, <<DImport("schema", <<"arr.json">>, 200)>>, <<DImport("schema", <<"undef.json">>, 200)>>}
Around(items, b, k) ==
  CASE k = "none" -> items
  [] k = "docs" -> <<[DRecord("Ok", <<>>, <<FField(TPrim("int", 110), "ok", 120)>>, 100) EXCEPT !.doc = <<"fine \\u00e9">>], Orph("stray", 150)>>
                   \o <<IF "doc" \in DOMAIN items[1] THEN [items[1] EXCEPT !.doc = <<"documented">>] ELSE items[1]>>
                   \o <<[DRecord("After", <<>>, <<>>, 300) EXCEPT !.doc = <<"x">>]>>
  [] OTHER -> <<DRecord("Ok", <<>>, <<FField(TPrim("int", 110), "ok", 120)>>, 100)>> \o items
JText == [FJson(<<"bad.json">>, Null) EXCEPT !.kind = "bad"]
Files2 == <<[FBad(<<"bad.json">>) EXCEPT !.text = "{\"type\": \"record\", "], FBad(<<"bad.avdl">>), FJson(<<"arr.json">>, Arr(<<Str("int"), Int("3")>>)),
            FJson(<<"undef.json">>, Obj(<<P("type", Str("array")), P("items", Str("x.Missing"))>>)),
            [FBad(<<"d1", "bad.json">>) EXCEPT !.text = "nonsense"], FJson(<<"d1", "arr.json">>, Int("1")), FBad(<<"d1", "bad.avdl">>),
            FJson(<<"d1", "undef.json">>, Str("Nope"))>>
Ns(h) == IF h = "" THEN <<>> ELSE <<NsAnno(h, 1)>>
PlaceWorldsOf(S) ==
  {MWorld("idl", <<<<"d1">>>>,
     IF at = "main" THEN <<FIdl(<<"m.avdl">>, UProto("P", Ns(h), Around(is, 0, k)))>> \o Files2
     ELSE IF at = "imported" THEN <<FIdl(<<"m.avdl">>, UProto("P", <<>>, <<DRecord("M", <<>>, <<>>, 100), DImport("idl", <<"d1", "i.avdl">>, 200)>>)),
                                  FIdl(<<"d1", "i.avdl">>, UProto("P", Ns(h), Around(is, 0, k)))>> \o Files2
     ELSE <<FIdl(<<"s", "m.avdl">>, UProto("P", <<>>, <<DImport("idl", <<"j.avdl">>, 10), DRecord("M", <<>>, <<>>, 100)>>)),
            FIdl(<<"s", "j.avdl">>, UProto("Q", <<>>, <<DImport("idl", <<"i.avdl">>, 10)>>)),
            FIdl(<<"d1", "i.avdl">>, UProto("P", Ns(h), Around(is, 0, k)))>> \o Files2,
     <<CFile(IF at = "nested" THEN <<"s", "m.avdl">> ELSE <<"m.avdl">>)>>) :
     is \in S, at \in {"main", "imported", "nested"}, k \in {"none", "plain", "docs"}, h \in {"n"}}
TypePlaces(deep) == PlaceWorldsOf(TypeItems)
DeclPlaces(deep) == PlaceWorldsOf(DeclItems)
DefaultPlaces(deep) == PlaceWorldsOf(DefaultItems)
AnnoPlaces(deep) == PlaceWorldsOf(AnnoItems)
ImportPlaces(deep) == PlaceWorldsOf(ImportItems)
(* the head of a file *)
HeadPlaces(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", <<>>, <<DImport("idl", <<"i.avdl">>, 10)>>)), FIdl(<<"i.avdl">>, u)>>,
          <<CFile(IF main THEN <<"i.avdl">> ELSE <<"m.avdl">>)>>) :
     main \in {TRUE, FALSE},
     u \in {UProto(n, a, <<DRecord("R", <<>>, <<>>, 100)>>) : n \in {"P", "int", "a.date", "void"}, a \in {<<>>, <<An("x", Null, 1), An("namespace", Int("1"), 2)>>, <<An("doc", Str(""), 1)>>}}
           \cup {USchema(<<"n">>, [t EXCEPT !.id = 16], <<DRecord("Ok", <<>>, <<>>, 100)>>) : t \in {TRef("Nope", 16), TPrim("int", 16), TRef("Ok", 16)}}
           \cup {UBare(<<>>, <<DRecord("R", <<>>, <<>>, 100)>>)}}
=============================================================================
