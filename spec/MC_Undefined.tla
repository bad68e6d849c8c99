----------------------------- MODULE MC_Undefined -----------------------------
(* Mentions of types at every kind of place at once, each of a type declared later,  *)
(* in another file, in another namespace, or nowhere.                                *)
EXTENDS AvdlWorlds

Param(t, n, b) == [doc |-> <<>>, type |-> t, vars |-> <<FVar(n, <<>>, b)>>]
Ns(h, b) == IF h = "" THEN <<>> ELSE <<NsAnno(h, b)>>
JRec(n, m) == Obj(<<P("type", Str("record")), P("name", Str(n)),
                    P("fields", Arr(<<Obj(<<P("name", Str("f")), P("type", Arr(<<Str("null"), Str(m)>>))>>)>>))>>)
(* p: the mentions at eight places *)
Main(h, p, first) ==
  LET is == <<DImport("idl", <<"a.avdl">>, 10), DImport("schema", <<"j.avsc">>, 20)>>
      ds == <<DRecord("R", <<>>, <<FField(TRef(p[1], 110), "x", 115), FField(TArr(TRefQ(p[2], 121), 120), "y", 125)>>, 100),
              DMsg("m", Mention(p[3], "map", 210), <<Param(Mention(p[4], "uni", 220), "z", 225)>>,
                   <<[n |-> p[5], id |-> 230], [n |-> "D", id |-> 231]>>, FALSE, 200),
              DRecord("D", <<>>, <<FField(Mention(p[8], "deep", 310), "d", 325)>>, 300)>> IN
  UProto("P", Ns(h, 1), IF first THEN is \o ds
                        ELSE ds \o <<[is[1] EXCEPT !.id = 400], [is[2] EXCEPT !.id = 410]>>)
Other(h, m) == UBare(IF h = "" THEN <<>> ELSE <<h>>, <<DRecord("A", <<>>, <<FField(TRef(m, 110), "x", 120)>>, 100)>>)
Ms == {"D", "U", "q.V", "n.D"}
UndefinedWorlds(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, Main(h, <<p1, p2, p3, p4, p5, p6, p7, p8>>, first)),
                         FIdl(<<"a.avdl">>, Other(IF same THEN h ELSE "", p6)), FJson(<<"j.avsc">>, JRec("J", p7))>>,
          <<CFile(<<"m.avdl">>), CDrain>>) :
     h \in {"", "n"}, first \in {TRUE, FALSE}, same \in {TRUE, FALSE},
     p1 \in {"D", "U"}, p2 \in {"D", "q.V", "U"}, p3 \in {"D", "U"}, p4 \in (IF deep THEN {"D", "A", "U"} ELSE {"A", "U"}), p5 \in {"R", "U"},
     p6 \in {"D", "U", "n.D"}, p7 \in (IF deep THEN {"J", "U", "q.V"} ELSE {"J", "U"}), p8 \in (IF deep THEN {"R", "n.U", "q.V"} ELSE {"R", "n.U"})}
(* the type of a schema line, and extraction *)
FormWorlds(deep) ==
  {MWorld(api, <<>>, <<FIdl(<<"m.avdl">>, IF f = "schema"
                             THEN USchema(IF h = "" THEN <<>> ELSE <<h>>, TArr(TUni(<<TRef(p1, 9), TPrim("null", 10)>>, 8), 7), ds)
                             ELSE UBare(IF h = "" THEN <<>> ELSE <<h>>, ds))>>, <<CFile(<<"m.avdl">>), CDrain>>) :
     f \in {"schema", "bare"}, api \in {"idl", "schemata"}, h \in {"", "n"}, p1 \in Ms,
     ds \in {<<DRecord("R", <<>>, <<FField(TRef(p2, 110), "x", 120), FField(TMap(TRef(p3, 131), 130), "y", 140)>>, 100),
               DRecord("D", Ns(h2, 201), <<FField(Mention(p4, "opt", 210), "d", 220)>>, 200)>> :
              p2 \in Ms, p3 \in {"D", "U"}, p4 \in {"R", "n.R", "W"}, h2 \in {"", "n", "q"}}}
(* types of imported protocols: in types, in messages, in the importing file *)
JProto(h, p1, p2, p3, p4) ==
  Obj((IF h = "" THEN <<>> ELSE <<P("namespace", Str(h))>>) \o
      <<P("protocol", Str("J")), P("types", Arr(<<JRec("J", p1), JRec("K", p2)>>)),
        P("messages", Obj(<<P("m", Obj(<<P("request", Arr(<<Obj(<<P("name", Str("a")), P("type", Str(p3))>>)>>)),
                                         P("response", Obj(<<P("type", Str("array")), P("items", Str(p4))>>))>>))>>))>>)
JsonMentionWorlds(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", Ns(h, 1),
              IF first THEN <<DImport("protocol", <<"j.avpr">>, 10), DRecord("R", <<>>, <<FField(TRef(p5, 110), "x", 115)>>, 100)>>
              ELSE <<DRecord("R", <<>>, <<FField(TRef(p5, 110), "x", 115)>>, 100), DImport("protocol", <<"j.avpr">>, 200)>>)),
            FJson(<<"j.avpr">>, JProto(h2, p1, p2, p3, p4))>>, <<CFile(<<"m.avdl">>), CDrain>>) :
     h \in {"", "n"}, h2 \in {"", "n", "j"}, first \in {TRUE, FALSE},
     p1 \in {"K", "j.K", "U"}, p2 \in {"R", "U", "n.U"}, p3 \in {"J", "U"}, p4 \in {"K", "q.V"}, p5 \in {"J", "U", "j.U"}}
(* many names that only imported JSON mentions *)
ManyRec(n, ms) == Obj(<<P("type", Str("record")), P("name", Str(n)),
                        P("fields", Arr(TLCEval([i \in 1..Len(ms) |-> Obj(<<P("name", Str("f" \o ToString(i))), P("type", Str(ms[i]))>>)])))>>)
NameLists == {<<"U1", "U2", "U3", "U4">>, <<"z.V", "U1", "n.W", "a.V", "U1">>, <<"int", "J", "J">>, <<"U3">>}
ManyWorlds(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", Ns(h, 1),
              <<DImport("schema", <<"j.avsc">>, 10), DImport("protocol", <<"k.avpr">>, 20)>> \o
              (IF own THEN <<DRecord("R", <<>>, <<FField(TRef("U1", 110), "x", 115), FField(TRef("z.V", 120), "y", 125),
                                                  FField(TRef("Own", 130), "o", 135)>>, 100)>> ELSE <<>>))),
            FJson(<<"j.avsc">>, ManyRec("J", a)),
            FJson(<<"k.avpr">>, Obj(<<P("protocol", Str("K")), P("types", Arr(<<ManyRec("K", b)>>)),
                    P("messages", Obj(<<P("m", Obj(<<P("request", Arr(<<>>)), P("response", Str(r)), P("errors", Arr(<<Str("E1"), Str("E2")>>))>>))>>))>>))>>,
          <<CFile(<<"m.avdl">>), CDrain>>) :
     h \in {"", "n"}, own \in {TRUE, FALSE}, a \in NameLists, b \in NameLists, r \in {"null", "U5"}}
=============================================================================
