------------------------------- MODULE MC_Clash -------------------------------
(* Three definitions, each carried by the main file, an imported IDL file, a JSON     *)
(* schema or a JSON protocol (at its top, inside another type or inside a message),   *)
(* under names that clash or only look alike.                                         *)
EXTENDS AvdlWorlds

Carriers == {"idl", "file", "avsc", "inner", "avpr", "msg"}
Kinds == <<"record", "enum", "fixed">>
(* spelled names: identifier and namespace *)
Spelled == {<<"X", "">>, <<"a.X", "">>, <<"X", "a">>, <<"x", "">>, <<"b.X", "a">>}
Ann(n, b) == IF n = "" THEN <<>> ELSE <<NsAnno(n, b)>>
Decl(k, s, b) == CASE k = "record" -> DRecord(s[1], Ann(s[2], b), <<FField(TPrim("int", b + 10), "f", b + 20)>>, b)
                 [] k = "enum" -> DEnum(s[1], Ann(s[2], b), <<"S">>, b)
                 [] OTHER -> DFixed(s[1], Ann(s[2], b), "7", b)
JNs(n) == IF n = "" THEN <<>> ELSE <<P("namespace", Str(n))>>
JName(s) == IF s = <<"b.X", "a">> THEN <<P("name", Str("b.X"))>> ELSE <<P("name", Str(s[1]))>> \o JNs(s[2])
(* i: number that tells contents apart, or 0 for the content that IDL files give *)
JDef(k, s, i) ==
  Obj(<<P("type", Str(k))>> \o JName(s) \o
      (CASE i = 0 /\ k = "record" -> <<P("fields", Arr(<<Obj(<<P("name", Str("f")), P("type", Str("int"))>>)>>))>>
       [] i = 0 /\ k = "enum" -> <<P("symbols", Arr(<<Str("S")>>))>>
       [] i = 0 -> <<P("size", Int("7"))>>
       [] k = "record" -> <<P("fields", Arr(<<Obj(<<P("name", Str("g" \o ToString(i))), P("type", Str("long"))>>)>>))>>
       [] k = "enum" -> <<P("symbols", Arr(<<Str("T" \o ToString(i))>>))>>
       [] OTHER -> <<P("size", Int(ToString(i)))>>))
Outer(k, s, i, j) == Obj(<<P("type", Str("record")), P("name", Str("Outer" \o ToString(i))),
                        P("fields", Arr(<<Obj(<<P("name", Str("f")), P("type", Obj(<<P("type", Str("array")), P("items", JDef(k, s, j))>>))>>)>>))>>)
(* the item of the main file, and the file it needs *)
ItemOf(c, k, s, i) ==
  LET n == ToString(i) IN
  CASE c = "idl" -> <<Decl(k, s, 100 * i)>>
  [] c = "file" -> <<DImport("idl", <<"i" \o n \o ".avdl">>, 100 * i)>>
  [] c \in {"avsc", "inner"} -> <<DImport("schema", <<"i" \o n \o ".avsc">>, 100 * i)>>
  [] OTHER -> <<DImport("protocol", <<"i" \o n \o ".avpr">>, 100 * i)>>
FileFor(c, k, s, i, j) ==
  LET n == ToString(i) IN
  CASE c = "idl" -> <<>>
  [] c = "file" -> <<FIdl(<<"i" \o n \o ".avdl">>, UProto("Q", <<>>, <<Decl(k, s, 100)>>))>>
  [] c = "avsc" -> <<FJson(<<"i" \o n \o ".avsc">>, JDef(k, s, j))>>
  [] c = "inner" -> <<FJson(<<"i" \o n \o ".avsc">>, Outer(k, s, i, j))>>
  [] c = "avpr" -> <<FJson(<<"i" \o n \o ".avpr">>, Obj(<<P("protocol", Str("J")), P("types", Arr(<<JDef(k, s, j)>>))>>))>>
  [] OTHER -> <<FJson(<<"i" \o n \o ".avpr">>, Obj(<<P("protocol", Str("J")), P("messages", Obj(<<P("m" \o n,
                  Obj(<<P("request", Arr(<<>>)), P("response", JDef(k, s, j))>>))>>))>>))>>
Clash(c1, c2, k1, k2, s1, s2, more) ==
  MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", <<>>, ItemOf(c1, k1, s1, 1) \o ItemOf(c2, k2, s2, 2) \o more[1]))>>
         \o FileFor(c1, k1, s1, 1, 1) \o FileFor(c2, k2, s2, 2, 2) \o more[2], <<CFile(<<"m.avdl">>)>>)
ClashWorlds(deep) ==
  {Clash(c1, c2, k1, k2, s1, s2, <<<<>>, <<>>>>) : c1 \in Carriers, c2 \in Carriers, k1 \in {"record"}, k2 \in (IF deep THEN {"record", "enum", "fixed"} ELSE {"record", "fixed"}),
     s1 \in Spelled, s2 \in Spelled}
TripleWorlds(deep) ==
  {Clash(c1, c2, "enum", "record", <<"X", "a">>, s2, <<ItemOf(c3, "fixed", s3, 3), FileFor(c3, "fixed", s3, 3, 3)>>) :
     c1 \in Carriers, c2 \in Carriers, c3 \in Carriers, s2 \in {<<"X", "">>, <<"a.X", "">>}, s3 \in {<<"X", "">>, <<"X", "a">>}}
(* definitions that say the same: still two *)
SameWorlds(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", <<>>, ItemOf(c1, k, s1, 1) \o ItemOf(c2, k, s2, 2)))>>
         \o FileFor(c1, k, s1, 1, 0) \o FileFor(c2, k, s2, 2, 0), <<CFile(<<"m.avdl">>)>>) :
     c1 \in Carriers, c2 \in Carriers, k \in {"record", "enum", "fixed"}, s1 \in {<<"X", "">>, <<"X", "a">>}, s2 \in {<<"X", "">>, <<"a.X", "">>}}
=============================================================================
