------------------------------- MODULE MC_Json -------------------------------
(* Imported JSON: names and namespaces however nested, every attribute with proper   *)
(* and improper values, every shape, protocols and their messages, and what is no     *)
(* schema at all.                                                                    *)
EXTENDS AvdlWorlds

Imp(how, path, j, items) ==
  MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", <<>>, <<DImport(how, path, 10)>> \o items)), FJson(path, j)>>,
         <<CFile(<<"m.avdl">>)>>)
Schema(j) == Imp("schema", <<"j.avsc">>, j, <<>>)
Proto(j) == Imp("protocol", <<"j.avpr">>, j, <<>>)
Ns(n) == IF n = <<>> THEN <<>> ELSE <<P("namespace", n[1])>>
JF(n, t) == Obj(<<P("name", Str(n)), P("type", t)>>)
JDef(kind, name, ns, fs) ==
  Obj(<<P("type", Str(kind)), P("name", Str(name))>> \o ns \o
      (CASE kind \in {"record", "error"} -> <<P("fields", Arr(fs))>>
       [] kind = "enum" -> <<P("symbols", Arr(<<Str("S"), Str("T")>>))>>
       [] OTHER -> <<P("size", Int("4"))>>))
(* ---- names: a definition inside a definition, and mentions of both ---- *)
Wrap(k, j) == CASE k = "plain" -> j [] k = "arr" -> Obj(<<P("type", Str("array")), P("items", j)>>)
              [] k = "map" -> Obj(<<P("type", Str("map")), P("values", j)>>)
              [] OTHER -> Arr(<<Str("null"), j>>)
NameChoices == {<<"I", <<>>>>, <<"a.I", <<>>>>, <<"I", Ns(<<Str("a")>>)>>, <<"I", Ns(<<Str("")>>)>>, <<"I", Ns(<<Str("b")>>)>>,
                <<"b.I", Ns(<<Str("b")>>)>>}
Outers == {<<"O", <<>>>>, <<"a.O", <<>>>>, <<"O", Ns(<<Str("a")>>)>>, <<"O", Ns(<<Str("")>>)>>}
Mentions == {"I", "a.I", "b.I", "O", "a.O"}
Nested(o, i, ik, wr, m, m2) ==
  JDef("record", o[1], o[2],
       <<JF("i", Wrap(wr, JDef(ik, i[1], i[2], <<JF("self", Wrap("arr", Str(m2)))>>))), JF("m", Wrap(wr, Str(m)))>>)
JNameWorlds(deep) ==
  {IF h = "schema" THEN Schema(Nested(o, i, ik, wr, m, m2))
   ELSE IF h = "types" THEN Proto(Obj(<<P("protocol", Str("J")), P("namespace", Str("b")), P("types", Arr(<<Nested(o, i, ik, wr, m, m2)>>))>>))
   ELSE Proto(Obj(<<P("protocol", Str("a.J")), P("messages", Obj(<<P("m",
           Obj(<<P("request", Arr(<<JF("x", Nested(o, i, ik, wr, m, m2))>>)), P("response", Str("null"))>>))>>))>>)) :
     h \in {"schema", "types", "message"}, o \in Outers, i \in NameChoices, ik \in (IF deep THEN {"record", "enum", "fixed", "error"} ELSE {"record", "enum"}),
     wr \in (IF deep THEN {"plain", "arr", "map", "uni"} ELSE {"plain", "uni"}), m \in Mentions, m2 \in {"O", "I", "a.O"}}
(* ---- attributes ---- *)
AttrNames == {"doc", "aliases", "namespace", "default", "order", "symbols", "size", "fields", "items", "values", "logicalType", "precision",
              "scale", "x", "name", "type", "java-class", "protocol", "request"}
AttrVals == {Str("t"), Str("n.t"), Str(""), Int("3"), Null, Bool(TRUE), Arr(<<>>), Arr(<<Str("S")>>), Arr(<<Str("q.S"), Str("T")>>), Arr(<<Int("1")>>),
             Obj(<<>>), Obj(<<P("k", Flt("1.5"))>>)}
(* the attribute a with value v, in place of another of that name *)
With(j, a, v) == LET o == SelectSeq(j.o, LAMBDA p : p.k # a) IN Obj(o \o <<P(a, v)>>)
Hosts == {JDef("record", "R", <<>>, <<JF("f", Str("int"))>>), JDef("error", "R", Ns(<<Str("n")>>), <<>>), JDef("enum", "R", Ns(<<Str("n")>>), <<>>),
          JDef("fixed", "R", <<>>, <<>>)}
Bodies == {Obj(<<P("type", Str("int"))>>), Obj(<<P("type", Str("bytes"))>>), Obj(<<P("type", Str("array")), P("items", Str("string"))>>),
           Obj(<<P("type", Str("map")), P("values", Str("long"))>>)}
JAttrWorlds(deep) == {Schema(With(h, a, v)) : h \in Hosts, a \in AttrNames, v \in AttrVals}
JBodyAttrWorlds(deep) ==
  {Schema(JDef("record", "R", <<>>, <<JF("f", With(b, a, v))>>)) : b \in Bodies, a \in AttrNames, v \in AttrVals}
JFieldAttrWorlds(deep) ==
  {Schema(JDef("record", "R", <<>>, <<With(JF("f", t), a, v)>>)) : t \in {Str("int"), Str("string"), Arr(<<Str("null"), Str("string")>>)},
                                                          a \in AttrNames, v \in AttrVals}
(* fields of any type with any default, and what else they may carry *)
MoreTypes == {Str("null"), Str("boolean"), Str("long"), Str("float"), Str("double"), Str("bytes"), Obj(<<P("type", Str("null"))>>), Obj(<<P("type", Str("array")), P("items", Str("string"))>>),
              Obj(<<P("type", Str("map")), P("values", Str("long"))>>), Arr(<<Str("string"), Str("null")>>), Arr(<<Str("null")>>), Arr(<<>>),
              JDef("enum", "E", <<>>, <<>>), JDef("record", "Q", <<>>, <<>>), JDef("fixed", "F", <<>>, <<>>)}
JDefaultWorlds(deep) ==
  {Schema(JDef("record", "R", <<>>, <<With(JF("f", t), a, v)>>)) : t \in MoreTypes, a \in {"default", "doc", "order", "aliases", "x"}, v \in AttrVals \cup {Bool(FALSE), Flt("0.5"), Str("S"), Int("0")}}
  \cup {Proto(Obj(<<P("protocol", Str("J")), P("messages", Obj(<<P("m", Obj(<<P("request", Arr(<<With(JF("f", t), "default", v)>>)), P("response", Str("null"))>>))>>))>>)) :
          t \in MoreTypes \cup {Str("int"), Str("string")}, v \in AttrVals}
(* strings are taken as they are, wherever they stand *)
Strings == {"two\n", " t ", "\n", "\t", " ", "a\r\nb", "*/", "/** d */", "// c", "\"q\"", "\\", "é", "%s", "`x`", "null", "0", "* a\n * b", "a  b"}
InDoc(j, s) == With(j, "doc", Str(s))
JTextWorlds(deep) ==
  UNION {LET s == Str(t) IN
    {Schema(InDoc(h, t)) : h \in Hosts} \cup {Schema(With(h, "x", s)) : h \in Hosts} \cup {Schema(With(h, "x", Obj(<<P(t, Arr(<<s>>))>>))) : h \in Hosts}
    \cup {Schema(JDef("record", "R", <<>>, <<With(With(JF("f", Str("string")), "default", s), "doc", s)>>)), Schema(JDef("record", "R", <<>>, <<With(With(JF("f", Str("bytes")), "default", s), "x", s)>>)),
          Schema(JDef("record", "R", <<>>, <<With(JF("f", Obj(<<P("type", Str("string")), P("x", s), P("doc", s)>>)), "y", Arr(<<s>>))>>)),
          Schema(JDef("record", "R", <<>>, <<With(JF("f", Obj(<<P("type", Str("map")), P("values", Str("string")), P("x", s)>>)), "default", Obj(<<P(t, s)>>))>>)),
          Schema(JDef("record", "R", <<>>, <<With(JF("f", Obj(<<P("type", Str("array")), P("items", Str("string")), P("x", s)>>)), "default", Arr(<<s, s>>))>>)),
          Proto(Obj(<<P("protocol", Str("J")), P("doc", s), P("x", s), P("messages", Obj(<<P("m", Obj(<<P("doc", s), P("x", s), P("request", Arr(<<InDoc(JF("p", Str("string")), t)>>)), P("response", Str("null"))>>))>>))>>)),
          Proto(Obj(<<P("protocol", Str("J")), P("types", Arr(<<InDoc(JDef("enum", "E", <<>>, <<>>), t)>>))>>))}
    : t \in Strings}
(* ---- shapes: what may stand for a schema ---- *)
Leaves == {Str("int"), Str("null"), Str("X"), Str("record"), Str(""), Str("a..b"), Null, Int("1"), Bool(FALSE), Obj(<<>>), Arr(<<>>),
           Obj(<<P("type", Int("1"))>>), Obj(<<P("type", Obj(<<P("type", Str("string"))>>))>>), Obj(<<P("name", Str("N"))>>),
           Obj(<<P("type", Str("array"))>>), Obj(<<P("type", Str("map"))>>), Obj(<<P("type", Str("record"))>>),
           Obj(<<P("type", Str("record")), P("name", Str("X"))>>), Obj(<<P("type", Str("enum")), P("name", Str("X"))>>),
           Obj(<<P("type", Str("fixed")), P("name", Str("X"))>>), JDef("record", "X", <<>>, <<>>), JDef("enum", "X", <<>>, <<>>),
           JDef("fixed", "9X", <<>>, <<>>), JDef("record", "x-y", <<>>, <<>>), JDef("enum", "a.X", <<>>, <<>>), JDef("record", "Y", <<>>, <<Str("f")>>),
           JDef("record", "Y", <<>>, <<Obj(<<P("name", Str("f"))>>)>>), JDef("record", "Y", <<>>, <<Obj(<<P("type", Str("int"))>>)>>),
           JDef("record", "Y", <<>>, <<JF("f", JDef("record", "X", <<>>, <<>>))>>)}
JShapeWorlds(deep) == {Schema(Wrap(k, x)) : k \in {"plain", "arr", "map", "uni"}, x \in Leaves}
JPairWorlds(deep) == {Schema(Arr(<<x, y>>)) : x \in Leaves, y \in Leaves}
JTwoFieldWorlds(deep) == {Schema(JDef("record", "R", <<>>, <<JF("a", x), JF("b", Wrap("arr", y))>>)) : x \in Leaves, y \in Leaves}
JTypesWorlds(deep) == {Proto(Obj(<<P("protocol", Str("J")), P("types", Arr(<<x, y>>))>>)) : x \in Leaves, y \in Leaves}
JProtoWorlds(deep) == {Proto(x) : x \in Leaves \cup {Obj(<<P("protocol", y)>>) : y \in {Str("J"), Str("a.J"), Int("1"), Null}}
                                          \cup {Obj(<<P("protocol", Str("J")), P(k, y)>>) : k \in {"types", "messages", "namespace", "doc"},
                                                 y \in {Null, Arr(<<>>), Obj(<<>>), Str("x"), Int("1"), Arr(<<Int("1")>>), Obj(<<P("m", Int("1"))>>)}}}
(* ---- messages of protocols ---- *)
Msg(parts) == Proto(Obj(<<P("protocol", Str("n.J")), P("types", Arr(<<JDef("record", "X", <<>>, <<>>), JDef("error", "E", <<>>, <<>>)>>)),
                          P("messages", Obj(<<P("b", Obj(parts)), P("a", Obj(<<P("response", Str("X")), P("request", Arr(<<>>))>>))>>))>>))
OptPart(k, c) == IF c = <<>> THEN <<>> ELSE <<P(k, c[1])>>
JMessageWorlds(deep) ==
  {Msg(OptPart("doc", d) \o OptPart("request", rq) \o OptPart("response", rs) \o OptPart("errors", er) \o OptPart("one-way", ow) \o OptPart("x", x)) :
     d \in {<<>>, <<Str("d")>>}, rq \in {<<>>, <<Arr(<<>>)>>, <<Arr(<<JF("p", Str("X")), With(JF("q", Str("long")), "default", Int("1"))>>)>>,
            <<Arr(<<JF("p", JDef("enum", "Q", <<>>, <<>>))>>)>>},
     rs \in {<<>>, <<Str("null")>>, <<Str("X")>>, <<JDef("record", "Z", <<>>, <<JF("f", Str("X"))>>)>>, <<Str("n.X")>>},
     er \in {<<>>, <<Arr(<<>>)>>, <<Arr(<<Str("E")>>)>>, <<Arr(<<Str("n.E"), JDef("error", "F", <<>>, <<>>)>>)>>},
     ow \in {<<>>, <<Bool(TRUE)>>, <<Bool(FALSE)>>}, x \in {<<>>, <<Arr(<<Int("1")>>)>>}}

(* Two legal spellings that the implementation reads otherwise. *)
BothNamed(deep) == {Schema(JDef("record", "a.R", Ns(<<Str("b")>>), <<JF("f", Str("int"))>>))}
ObjectMention(deep) ==
  {Schema(JDef("record", "R", <<>>, <<JF("f", JDef("fixed", "F", <<>>, <<>>)), JF("g", Obj(<<P("type", Str("F"))>>))>>))}
===============================================================================
