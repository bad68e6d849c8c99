------------------------------ MODULE MC_Messages ------------------------------
(* What a message says, every combination of its parts; and which of several          *)
(* messages of one name wins along a chain of files of every form.                     *)
EXTENDS AvdlWorlds

An(n, v, b) == [n |-> n, v |-> v, id |-> b]
Param(t, n, dflt, doc, annos, b) == [doc |-> doc, type |-> t, vars |-> <<[FVar(n, dflt, b) EXCEPT !.annos = annos]>>]
Types == <<DRecord("R", <<>>, <<>>, 700), [DRecord("F", <<>>, <<>>, 800) EXCEPT !.k = "error"], DRecord("q.G", <<>>, <<>>, 900)>>
Params == {<<>>, <<Param(TPrim("int", 110), "a", <<>>, <<>>, <<>>, 115)>>,
           <<Param(TRefQ("R", 110), "a", <<Null>>, <<"pdoc">>, <<>>, 115), Param(TArr(TRef("q.G", 121), 120), "b", <<Arr(<<>>)>>, <<>>,
               <<An("x", Int("1"), 122), An("order", Str("ignore"), 123), An("aliases", Arr(<<Str("z")>>), 124)>>, 125)>>,
           <<Param([TPrim("long", 110) EXCEPT !.q = TRUE], "b", <<Int("5")>>, <<>>, <<>>, 115), Param(TRef("R", 120), "a", <<>>, <<>>, <<>>, 125),
             Param(TUni(<<TPrim("null", 131), TRef("F", 132)>>, 130), "c", <<>>, <<>>, <<>>, 135)>>}
Results == {TVoid(140), TPrim("null", 140), TPrim("uuid", 140), TRef("R", 140), TRefQ("q.G", 140), TMap(TRef("F", 141), 140)}
Throws == {<<>>, <<[n |-> "F", id |-> 150]>>, <<[n |-> "q.G", id |-> 150], [n |-> "F", id |-> 151]>>, <<[n |-> "F", id |-> 150], [n |-> "F", id |-> 151]>>}
Annos == {<<>>, <<An("x", Arr(<<Str("y")>>), 101)>>, <<An("x", Int("1"), 101), An("y-z", Null, 102), An("x", Int("2"), 103)>>}
MessageWorlds(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", <<NsAnno("n", 1)>>,
      IF first THEN <<m>> \o Types ELSE Types \o <<m, [m EXCEPT !.ident = "other", !.id = 6]>>))>>, <<CFile(<<"m.avdl">>)>>) :
     first \in {TRUE, FALSE},
     m \in {[DMsg("say", rs, ps, IF ow THEN <<>> ELSE th, ow, 105) EXCEPT !.doc = d, !.annos = an] :
              rs \in Results, ps \in Params, th \in Throws, ow \in {TRUE, FALSE}, d \in {<<>>, <<"mdoc">>}, an \in Annos}}
(* ---- merging ---- *)
Msg(n, t, doc, b) == [DMsg(n, TPrim(t, b + 1), <<>>, <<>>, FALSE, b) EXCEPT !.doc = <<doc>>]
JMsg(t) == Obj(<<P("doc", Str("json")), P("request", Arr(<<>>)), P("response", Str(t))>>)
Unit(form, items, b) ==
  LET own == SelectSeq(items, LAMBDA i : i.k # "msg") IN
  CASE form = "protocol" -> UProto("Q", <<>>, items)
  [] form = "schema" -> USchema(<<>>, TPrim("int", 7), own \o <<DRecord("Own" \o ToString(b), <<>>, <<>>, 900)>>)
  [] OTHER -> UBare(<<>>, own \o <<DRecord("Own" \o ToString(b), <<>>, <<>>, 900)>>)
Leaf(kind) == IF kind = "avpr"
              THEN FJson(<<"c.avpr">>, Obj(<<P("protocol", Str("C")), P("messages", Obj(<<P("h", JMsg("bytes")), P("f", JMsg("double"))>>))>>))
              ELSE FIdl(<<"c.avdl">>, Unit(kind, <<Msg("h", "bytes", "c", 100), Msg("f", "double", "c", 200)>>, 3))
ImpLeaf(kind, b) == IF kind = "avpr" THEN DImport("protocol", <<"c.avpr">>, b) ELSE DImport("idl", <<"c.avdl">>, b)
MergeWorlds(deep) ==
  {MWorld("idl", <<>>,
    <<FIdl(<<"m.avdl">>, UProto("P", <<>>,
        (CASE im = "a" -> <<DImport("idl", <<"a.avdl">>, 10)>> [] im = "ab" -> <<DImport("idl", <<"a.avdl">>, 10), DImport("idl", <<"b.avdl">>, 20)>>
         [] im = "ba" -> <<DImport("idl", <<"b.avdl">>, 10), DImport("idl", <<"a.avdl">>, 20)>>
         [] im = "ca" -> <<ImpLeaf(leaf, 10), DImport("idl", <<"a.avdl">>, 20)>> [] OTHER -> <<DImport("idl", <<"a.avdl">>, 10), ImpLeaf(leaf, 20)>>)
        \o (IF own THEN <<Msg("f", "int", "main", 300)>> ELSE <<>>) \o <<Msg("z", "null", "main", 400)>>)),
      FIdl(<<"a.avdl">>, Unit(fa, <<Msg("f", "string", "a", 100), ImpLeaf(leaf, 200), Msg("g", "string", "a", 300)>>, 1)),
      FIdl(<<"b.avdl">>, Unit(fb, <<Msg("g", "long", "b", 100), Msg("f", "long", "b", 200)>> \o (IF bleaf THEN <<ImpLeaf(leaf, 300)>> ELSE <<>>)
                              \o <<Msg("k", "long", "b", 400)>>, 2)),
      Leaf(leaf)>>, <<CFile(<<"m.avdl">>)>>) :
     im \in {"a", "ab", "ba", "ca", "ac"}, own \in {TRUE, FALSE}, fa \in {"protocol", "schema", "bare"}, fb \in {"protocol", "schema", "bare"},
     bleaf \in {TRUE, FALSE}, leaf \in {"avpr", "protocol", "schema", "bare"}}
(* ---- messages of imported JSON protocols ---- *)
JDef(k, n, more) == Obj(<<P("type", Str(k)), P("name", Str(n))>> \o more)
JRec(k, n) == JDef(k, n, <<P("fields", Arr(<<Obj(<<P("name", Str("f")), P("type", Str("int"))>>)>>))>>)
JEnum(n) == JDef("enum", n, <<P("symbols", Arr(<<Str("S")>>))>>)
JParam(n, t, more) == Obj(<<P("name", Str(n)), P("type", t)>> \o more)
JHead(h) == CASE h = "none" -> <<P("protocol", Str("J"))>> [] h = "attr" -> <<P("protocol", Str("J")), P("namespace", Str("n"))>>
           [] h = "dotted" -> <<P("protocol", Str("n.J"))>>
           [] OTHER -> <<P("protocol", Str("n.J")), P("namespace", Str("k"))>>
JNs(h) == IF h = "none" THEN "" ELSE "n"
Dot(h, x) == IF h = "none" THEN x ELSE "n." \o x
JTypes == <<P("types", Arr(<<JRec("record", "X"), JRec("error", "E"), JRec("error", "q.F")>>))>>
JRequests(h) ==
  {Arr(<<>>), Arr(<<JParam("p", Str("X"), <<>>)>>),
   Arr(<<JParam("p", Arr(<<Str("null"), Str(Dot(h, "X"))>>), <<P("default", Null), P("doc", Str("pd"))>>),
         JParam("a", Obj(<<P("type", Str("array")), P("items", Str("q.F"))>>), <<P("default", Arr(<<>>)), P("order", Str("ignore")), P("x", Int("1"))>>)>>),
   Arr(<<JParam("p", JRec("record", "In"), <<P("aliases", Arr(<<Str("old")>>))>>), JParam("q", Str("In"), <<>>)>>),
   Arr(<<JParam("p", Str("long"), <<P("default", Int("7")), P("order", Str("descending"))>>)>>)}
JResponses(h) == {Str("null"), Str("X"), Str(Dot(h, "X")), JEnum("Out"), Obj(<<P("type", Str("map")), P("values", Str("E"))>>),
                  Obj(<<P("type", Str("long")), P("logicalType", Str("timestamp-millis"))>>)}
JErrorLists(h) == {<<>>, <<Arr(<<>>)>>, <<Arr(<<Str("E")>>)>>, <<Arr(<<Str("q.F"), Str(Dot(h, "E"))>>)>>,
                   <<Arr(<<JRec("error", "New"), Str("E")>>)>>, <<Arr(<<Str("string"), Str("E")>>)>>}
JMsgs(h, rq, rs, er, d) ==
  <<P("messages", Obj(<<P("b", Obj((IF d THEN <<P("doc", Str("md"))>> ELSE <<>>) \o <<P("request", rq), P("response", rs)>>
                                   \o (IF er = <<>> THEN <<>> ELSE <<P("errors", er[1])>>)
                                   \o (IF d THEN <<P("since", Str("1.2")), P("n", Obj(<<P("k", Null)>>))>> ELSE <<>>))),
                        P("a", Obj(<<P("request", rq), P("response", Str("null")), P("one-way", Bool(TRUE))>>))>>))>>
ImportedMessageWorlds(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", IF mns = "" THEN <<>> ELSE <<NsAnno(mns, 1)>>, <<DImport("protocol", <<"j.avpr">>, 10),
                            DMsg("z", TRef(Dot(h, "X"), 110), <<>>, <<[n |-> "q.F", id |-> 120]>>, FALSE, 105)>>)),
                         FJson(<<"j.avpr">>, Obj(JHead(h) \o JTypes \o JMsgs(h, x[1], x[2], x[3], d)))>>, <<CFile(<<"m.avdl">>)>>) :
     mns \in (IF deep THEN {"", "k"} ELSE {"k"}), d \in (IF deep THEN {TRUE, FALSE} ELSE {TRUE}), h \in {"attr", "dotted", "both"},
     x \in JRequests("attr") \X JResponses("attr") \X JErrorLists("attr")}
BareMessageWorlds(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", <<>>, <<DImport("protocol", <<"j.avpr">>, 10)>>)),
                         FJson(<<"j.avpr">>, Obj(JHead("none") \o JTypes \o JMsgs("none", x[1], x[2], x[3], TRUE)))>>, <<CFile(<<"m.avdl">>)>>) :
     x \in JRequests("none") \X JResponses("none") \X JErrorLists("none")}

(* A type without namespace that a message of a protocol with one mentions: the document   *)
(* says its simple name, which reads as a name in the namespace of the protocol.           *)
LostWorlds(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", <<NsAnno("n", 1)>>, <<DImport("idl", <<"t.avdl">>, 10)>>)),
                         FIdl(<<"t.avdl">>, UProto("Q", <<>>, <<DRecord("B", <<>>, <<>>, 30), DMsg("m", TRef("B", 21), <<>>, <<>>, FALSE, 20)>>))>>, <<CFile(<<"m.avdl">>)>>)}
===============================================================================
