----------------------------- MODULE MC_JsonTexts -----------------------------
(* JSON texts near valid ones, imported: characters and phrases put in, taken away,     *)
(* exchanged, replaced, repeated; texts cut off everywhere.                             *)
EXTENDS AvdlWorlds, JsonText

JFileOf(path, C) ==
  LET x == JLexing(C)
      p == IF x.clean /\ ~x.odd THEN TLCEval(JsonOf(x.toks)) ELSE <<>>
      f == CASE ~x.clean -> FBad(path)
             [] x.odd \/ JForeignName(C, x.toks) -> FWild(path, FALSE)
             [] p = <<>> -> FBad(path)
             [] OTHER -> FJson(path, p[1]) IN
  [k \in DOMAIN f \cup {"text"} |-> IF k = "text" THEN Joined(C, 1, Len(C) + 1) ELSE f[k]]

Cs(s) == Explode(s)
Bases == [
  schema |-> Cs("// a\n{\"type\": \"record\", \"name\": \"n.R\", /* \" */ \"doc\":\"// d\\u00e9\\/\\n\", \"x\": [1, -2.5e1, null, true],\n \"fields\":[{\"name\":\"a\",\"type\":[\"null\",{\"type\":\"enum\",\"name\":\"E\",\"symbols\":[\"A\"]}],\"default\":null},{\"name\":\"b\",\"type\":\"R\"}]}\r\n"),
  protocol |-> Cs("{\"protocol\":\"Q\",\"namespace\":\"n\",\"types\":[{\"type\":\"fixed\",\"name\":\"F\",\"size\":12}],\"messages\":{\"m\":{\"request\":[{\"name\":\"p\",\"type\":\"F\"}],\"response\":\"null\",\"one-way\":true}}}/**/"),
  small |-> Cs("{\"type\":\"enum\",\"name\":\"E\",\"symbols\":[\"A\",\"B\"],\"doc\":\"\\uD83D\\uDE00\",\"aliases\":[\"D\"],\"x\":{\"a\":0.5,\"b\":-1}}//")]
BaseNames == DOMAIN Bases
How(b) == IF b = "protocol" THEN "protocol" ELSE "schema"
JWorld(b, C) == MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", <<>>, <<DImport(How(b), <<"j">>, 10)>>)), JFileOf(<<"j">>, C)>>, <<CFile(<<"m.avdl">>), CDrain>>)

Marks == {"\"", "\\", "/", "*", "[", "]", "{", "}", ":", ",", ".", "-", "+", "0", "1", "9", "e", "E", "u", "n", "t", "x", "#", "'", "_", " ", "\n", "\r", "\t"}
Controls == {CharOf(n) : n \in {0, 8, 11, 12, 27, 31, 127}}
Foreigners == {CharOf(n) : n \in {133, 160, 183, 233, 8232, 8364, 20013, 65279, 65535, 128512, 1114111}}
Singles == Marks \cup Controls \cup Foreigners
Strings == {"//", "/*", "*/", "/**/", "/*/", "/* \" */", "// \"\n", "//\r", "\"\"", "\"x\"", "\\u0041", "\\u00", "\\ud83d", "\\udE00", "\\x", "\\/", "null", "true", "nul", "NaN", "01", "-0", "1.", ".5", "1e5", "1E+2", "-", "--1", "0x1",
            "9223372036854775807", "9223372036854775808", "18446744073709551616", "1e400", "{}", "[]", ",,", "\"x\":1,", ",\"x\":1", "\"type\":\"int\",", "\"name\":\"Z\",", "\"namespace\":\"z\",", "# c\n", "<!-- -->", ";", "'x'"}
All1(b) == 1..Len(Bases[b])
PutJ(b, js) == {JWorld(b, SubSeq(Bases[b], 1, i - 1) \o x \o SubSeq(Bases[b], i, Len(Bases[b]))) : i \in 1..(Len(Bases[b]) + 1), x \in js}
InsteadJ(b, js) == {JWorld(b, [Bases[b] EXCEPT ![i] = x]) : i \in All1(b), x \in js}
GoneJ(b, n) == {JWorld(b, SubSeq(Bases[b], 1, i - 1) \o SubSeq(Bases[b], k + 1, Len(Bases[b]))) : <<i, k>> \in {y \in All1(b) \X All1(b) : y[2] >= y[1] /\ y[2] < y[1] + n}}
TwiceJ(b, n) == {JWorld(b, SubSeq(Bases[b], 1, k) \o SubSeq(Bases[b], i, Len(Bases[b]))) : <<i, k>> \in {y \in All1(b) \X All1(b) : y[2] >= y[1] /\ y[2] < y[1] + n}}
SwapJ(b, n) == {JWorld(b, [Bases[b] EXCEPT ![i] = Bases[b][k], ![k] = Bases[b][i]]) : <<i, k>> \in {y \in All1(b) \X All1(b) : y[2] > y[1] /\ y[2] <= y[1] + n}}
CutJ(b) == {JWorld(b, SubSeq(Bases[b], 1, i)) : i \in 0..Len(Bases[b])} \cup {JWorld(b, SubSeq(Bases[b], i, Len(Bases[b]))) : i \in All1(b)}

PlainJ(deep) == {JWorld(b, Bases[b]) : b \in BaseNames}
CutsJ(deep) == UNION {CutJ(b) : b \in BaseNames}
GonesJ(deep) == UNION {GoneJ(b, IF deep THEN 8 ELSE 2) : b \in BaseNames}
TwicesJ(deep) == UNION {TwiceJ(b, IF deep THEN 8 ELSE 2) : b \in BaseNames}
SwapsJ(deep) == UNION {SwapJ(b, IF deep THEN 6 ELSE 1) : b \in BaseNames}
PutsSchema(deep) == PutJ("schema", {<<c>> : c \in Singles})
PutsProtocol(deep) == IF deep THEN PutJ("protocol", {<<c>> : c \in Singles}) ELSE PutJ("protocol", {<<c>> : c \in Controls \cup Foreigners})
PutsSmall(deep) == PutJ("small", {<<c>> : c \in Singles})
PutsStrings(deep) == IF deep THEN UNION {PutJ(b, {Cs(x) : x \in Strings}) : b \in BaseNames} ELSE PutJ("small", {Cs(x) : x \in Strings})
InsteadsSchema(deep) == InsteadJ("schema", IF deep THEN Singles ELSE Controls \cup Foreigners)
InsteadsProtocol(deep) == InsteadJ("protocol", Singles)
InsteadsSmall(deep) == InsteadJ("small", Singles)
(* All texts over a few phrases. *)
Few == {"{", "}", "[", "]", "\"type\"", ":", "\"int\"", ",", "1", "/*", "*/", "//\n", "null", "\"", " "}
RECURSIVE Phrases(_)
Phrases(n) == IF n = 0 THEN {""} ELSE {x \o y : x \in Phrases(n - 1), y \in Few}
AllPhrases(deep) == {JWorld("small", Cs(x)) : x \in UNION {Phrases(n) : n \in 0..(IF deep THEN 4 ELSE 3)}}
JWorldOf(v) == MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", <<>>, <<DImport("schema", <<"j">>, 10)>>)),
                                    FJson(<<"j">>, Obj(<<P("type", Str("record")), P("name", Str("R")), P("fields", Arr(<<Obj(<<P("name", Str("f")), P("type", Str("double")), P("default", v)>>)>>))>>))>>,
                      <<CFile(<<"m.avdl">>), CDrain>>)
(* Numbers that are not read exactly. *)
InexactJ(deep) == {JWorldOf(Flt(x)) : x \in {"-2.5e91"}}
===============================================================================
