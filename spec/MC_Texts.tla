------------------------------- MODULE MC_Texts -------------------------------
(* Texts near others, character by character: characters and strings put in, taken     *)
(* away, exchanged, replaced, repeated; texts cut off everywhere.  The lexer and the    *)
(* parser of the specification say what each means, or that it is no text of the        *)
(* language, or that its lexical structure is broken, so that it must not pass in       *)
(* silence.                                                                             *)
EXTENDS AvdlWorlds, AvdlLexer

TextFileOf(path, C) ==
  LET x == Lexing(C)
      p == IF x.clean /\ ~x.odd THEN TLCEval(Parsing(x.toks)) ELSE NoAt(0) IN
  (CASE x.odd -> FWild(path, FALSE)
   [] ~x.clean -> FBroken(path, x.broken)
   [] LongSize(x.toks) \/ ForeignName(C, x.toks) -> FWild(path, FALSE)
   [] p.i = 0 -> FBadAt(path, p.f)
   [] OTHER -> FIdl(path, TLCEval(WithDocs(p.v, x.els))))
  @@ [offs |-> TLCEval([i \in 1..Len(x.toks) |-> x.toks[i].at])]
(* FBad has a text of its own *)
FChars(path, C) == LET f == TextFileOf(path, C) IN [k \in DOMAIN f \cup {"text"} |-> IF k = "text" THEN Joined(C, 1, Len(C) + 1) ELSE f[k]]

Cs(s) == Explode(s)
Texts == [
  protocol |-> Cs("/** P */\n@namespace(\"n\")\nprotocol P {\n record R { int a = 0x1F; /** d */ union{null,R} `b`=null; } // c\n enum E{A,B}=A; fixed F(16);\n"
                  \o "/***/ decimal(9,2)? m(string s = \"q\\n\\101\", double d = -1.5e3) throws Err;\n error Err {} void n() oneway;\n}\n"),
  schema |-> Cs("namespace a.b;\nschema array<R?>;\nimport schema \"s.avsc\"; record R { n.S /** s */ s;\n /* one */ @order(\"ignore\") map<@x({\"k\": [1, NaN]}) long> m = {}; }\n/** end */"),
  (* one line, with characters of two, three and four bytes before every token *)
  wide |-> Cs("/* ") \o <<CharOf(233), CharOf(8364), CharOf(128512)>> \o Cs(" */ record R { /** ") \o <<CharOf(128512)>> \o Cs(" */ string s = \"")
           \o <<CharOf(20013), "e", CharOf(769)>> \o Cs("\"; @x(\"") \o <<CharOf(233)>> \o Cs("\") int i; R? r = null; } enum E { A }"),
  small |-> Cs("/** a\n  * b */ record R { R? /** r */ r = null; string s = \"\\u00e9\"; }")]
TextNames == DOMAIN Texts
Others == <<FJson(<<"s.avsc">>, Obj(<<P("type", Str("fixed")), P("name", Str("S")), P("namespace", Str("n")), P("size", Int("2"))>>))>>
ApiOf(b) == IF b \in {"small", "wide"} THEN "schemata" ELSE "idl"
CWorld(b, C) == MWorld(ApiOf(b), <<>>, <<FChars(<<"m.avdl">>, C)>> \o Others, <<CFile(<<"m.avdl">>), CDrain>>)
Ascii == {LowCh(n) : n \in 32..126}
Marks == {"!", "\"", "#", "$", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "7", ":", ";", "<", "=", ">", "?", "@", "A", "Z", "[", "\\", "]", "_", "`",
          "a", "e", "f", "l", "u", "x", "{", "|", "}", "~", " ", "\n"}
Controls == {LowCh(n) : n \in {0, 8, 9, 11, 12, 13, 26, 27, 127}}
Foreigners == {CharOf(n) : n \in {133, 160, 181, 183, 233, 769, 945, 8232, 8364, 20013, 65279, 65535, 119987, 128512, 1114111}}
Singles == Marks \cup Controls \cup Foreigners
Strings == {"//", "/*", "*/", "/**", "/**/", "/***/", "/** x */", "/* x */", "// x\n", "\"\"", "\"x\"", "\\u0041", "\\u00", "\\777", "``", "`a`", "`a`.`b`", "a.b", "a.", ".a", "a-b",
            "-1", "+1", "0x", "0x1p3", "1e5", "1.", ".5", "-.5f", "08", "NaN", "-Infinity", "\r\n", "<<", ">>", "%%", "\\\"", "@x(1)", "null", " ; ", "? ", "}}", "\\\\"}
WithOthers == {<<CharOf(65279)>>, <<CharOf(128512), CharOf(128512), CharOf(128512)>>, <<"e", CharOf(769)>>, <<"/", "/", CharOf(8364), "\n">>, <<"\"", CharOf(128512)>>, <<"/", "*", "*", CharOf(8232), "*", "/">>}
All1(b) == 1..Len(Texts[b])
PutText(b, js) == {CWorld(b, SubSeq(Texts[b], 1, i - 1) \o x \o SubSeq(Texts[b], i, Len(Texts[b]))) : i \in 1..(Len(Texts[b]) + 1), x \in js}
InsteadText(b, js) == {CWorld(b, [Texts[b] EXCEPT ![i] = x]) : i \in All1(b), x \in js}
GoneText(b, n) == {CWorld(b, SubSeq(Texts[b], 1, i - 1) \o SubSeq(Texts[b], k + 1, Len(Texts[b]))) : <<i, k>> \in {y \in All1(b) \X All1(b) : y[2] >= y[1] /\ y[2] < y[1] + n}}
TwiceText(b, n) == {CWorld(b, SubSeq(Texts[b], 1, k) \o SubSeq(Texts[b], i, Len(Texts[b]))) : <<i, k>> \in {y \in All1(b) \X All1(b) : y[2] >= y[1] /\ y[2] < y[1] + n}}
SwapText(b, n) == {CWorld(b, [Texts[b] EXCEPT ![i] = Texts[b][k], ![k] = Texts[b][i]]) : <<i, k>> \in {y \in All1(b) \X All1(b) : y[2] > y[1] /\ y[2] <= y[1] + n}}
CutText(b) == {CWorld(b, SubSeq(Texts[b], 1, i)) : i \in 0..Len(Texts[b])} \cup {CWorld(b, SubSeq(Texts[b], i, Len(Texts[b]))) : i \in All1(b)}
Exploded(js) == {Cs(x) : x \in js} \cup WithOthers

PlainTexts(deep) == {CWorld(b, Texts[b]) : b \in TextNames}
CutTexts(deep) == UNION {CutText(b) : b \in TextNames}
GoneTexts(deep) == UNION {GoneText(b, IF deep THEN 6 ELSE 2) : b \in TextNames}
TwiceTexts(deep) == UNION {TwiceText(b, IF deep THEN 6 ELSE 2) : b \in TextNames}
SwapTexts(deep) == UNION {SwapText(b, IF deep THEN 6 ELSE 1) : b \in TextNames}
PutProtocol(deep) == PutText("protocol", {<<c>> : c \in IF deep THEN Singles \cup Ascii ELSE Singles})
PutSchema(deep) == PutText("schema", {<<c>> : c \in IF deep THEN Singles \cup Ascii ELSE Controls \cup Foreigners})
PutWide(deep) == PutText("wide", {<<c>> : c \in Marks \cup Controls \cup Foreigners})
InsteadWide(deep) == InsteadText("wide", {"\"", "#", "%", "`", "+", "\\", " ", "e", "1", ";", "{", ","} \cup IF deep THEN Singles \cup Ascii ELSE {})
PutSmall(deep) == PutText("small", {<<c>> : c \in Singles \cup Ascii})
PutStrings(deep) == IF deep THEN UNION {PutText(b, Exploded(Strings)) : b \in TextNames} ELSE PutText("small", Exploded(Strings)) \cup PutText("schema", Exploded(Strings))
InsteadProtocol(deep) == IF deep THEN InsteadText("protocol", Singles \cup Ascii) ELSE InsteadText("protocol", Controls \cup Foreigners)
InsteadSchema(deep) == InsteadText("schema", IF deep THEN Singles \cup Ascii ELSE Singles)
InsteadSmall(deep) == InsteadText("small", Singles \cup Ascii)
=============================================================================
