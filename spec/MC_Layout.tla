------------------------------ MODULE MC_Layout ------------------------------
(* Every way to lay out the tokens of a source: what stands in each gap, names between *)
(* backquotes, and what follows an end-of-file character.  A world's text is spelled   *)
(* here; what the world does depends on its syntax tree alone.                         *)
EXTENDS MC_Docs

CharTable == JsonDeserialize("chars.json")
Low(cp) == CharTable.low[cp + 1]
High(cp) == (CHOOSE i \in 1..Len(CharTable.high) : CharTable.high[i].cp = cp)
Hi(cp) == CharTable.high[High(cp)].s
SUB == Low(26)
Smile == Hi(128512)

WordCh == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
           "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z",
           "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "_", "-", "."}
(* Two tokens that would become one. *)
NeedsGap(a, b) == Ch(a, Len(a)) \in WordCh /\ Ch(b, 1) \in WordCh
(* names with each part between backquotes *)
Dots(s) == {i \in 1..Len(s) : Ch(s, i) = "."}
RECURSIVE Quoted(_)
Quoted(s) == IF Dots(s) = {} THEN "`" \o s \o "`"
             ELSE LET i == CHOOSE x \in Dots(s) : \A y \in Dots(s) : x <= y IN
                  "`" \o SubSeq(s, 1, i - 1) \o "`." \o Quoted(SubSeq(s, i + 1, Len(s)))
(* The text of the tokens with the fillers g(1) .. g(n + 1) before, between and after. *)
Laid(toks, g(_)) ==
  Flat(TLCEval([i \in 1..(Len(toks) + 1) |->
     LET f == g(i)
         gap == IF f = "" /\ i > 1 /\ i <= Len(toks) THEN IF NeedsGap(toks[i - 1].s, toks[i].s) THEN " " ELSE "" ELSE f IN
     (IF gap = "" THEN <<>> ELSE <<[s |-> gap, id |-> 0]>>)
     \o IF i > Len(toks) THEN <<>> ELSE <<[s |-> toks[i].s, id |-> 0]>>]), 1)
LText(path, u, text) == FIdl(path, u) @@ [toks |-> TLCEval(text)]
LWorld(f, text) == MWorld(IF f = "bare" THEN "schemata" ELSE "idl", <<>>, <<LText(<<"m.avdl">>, Skeletons[f], text)>> \o Others, Calls)

Blanks == {" ", "\n", "\r\n", "\r", "\t", "\f", "\n\n  \n", " \t \n"}
Comments == {"// c\n", "//\n", "// \" { } ; /* ` @ \\ \n", "//c\r", "//c\r\n", "/// c\n", "/* c */", "/* * */", "/*\n*/", "/* // */", "/* /* */", "/*/ */",
             "/* \" */", "/* ' ` */", "/* } ; { ) */", "// " \o Smile \o Hi(8364) \o Low(233) \o "\n", "/* " \o Hi(119070) \o Low(252) \o " */",
             "/* " \o Hi(8232) \o Low(133) \o " */", "/*c*//*d*/", "/* c */ // d\n", "//c\n//d\n"}
Fillers == Blanks \cup Comments
LForms == {"protocol", "schema", "bare"}
(* one filler in one gap of a tight, a spaced and a stretched text *)
OneGapOf(f) ==
  {LWorld(f, Laid(Toks[f], LAMBDA i : IF i = g THEN c ELSE base)) : g \in Gaps(f), c \in Fillers, base \in {"", " "}}
OneGapWorlds(deep) == IF deep THEN UNION {OneGapOf(f) : f \in LForms} ELSE OneGapOf("schema")
BareGapWorlds(deep) == OneGapOf("bare")
(* the same filler, or two in turn, everywhere *)
AllGapWorlds(deep) ==
  {LWorld(f, Laid(Toks[f], LAMBDA i : IF i % m = 0 THEN c ELSE d)) : f \in LForms, m \in {2, 3}, c \in Fillers,
   d \in {"", "\n", "\r", "\f", "/* " \o Smile \o " */", "// c\n"}}
(* names between backquotes: one, or all *)
NameAt(f) == {i \in 1..Len(Toks[f]) : "nm" \in DOMAIN Toks[f][i]}
QuotedToks(f, S) == TLCEval([i \in 1..Len(Toks[f]) |-> IF i \in S THEN [Toks[f][i] EXCEPT !.s = Quoted(@)] ELSE Toks[f][i]])
QuoteWorlds(deep) ==
  UNION {{LWorld(f, Laid(QuotedToks(f, S), LAMBDA i : base)) : S \in {{i} : i \in NameAt(f)} \cup {NameAt(f)}, base \in {"", " ", "\n"}} : f \in LForms}
(* what follows an end-of-file character means nothing *)
Tails == {"", " ", "\n", "}", " record {", "/* x", "/** x */", "// x", "\"x", "`", "@", "\\", SUB, " " \o SUB, "x" \o SUB \o "y", "{" \o SUB \o "}\n" \o SUB,
          "/** a */" \o SUB, Smile, Low(0), Low(233) \o SUB \o Smile, " protocol Q { }", " record Late { }", " import idl \"gone.avdl\";"}
TailWorlds(deep) ==
  {LWorld(f, Laid(Toks[f], LAMBDA i : IF i > Len(Toks[f]) THEN before \o SUB \o tail ELSE base)) :
     f \in LForms, before \in {"", " ", "\n", "/* c */", "// c\n", "\r\n"}, tail \in Tails, base \in {" ", "\n"}}
(* the same in an imported file *)
ImportedTailWorlds(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("M", <<>>, <<DImport("idl", <<"i.avdl">>, 10), DRecord("Own", <<>>, <<>>, 100)>>)),
                         LText(<<"i.avdl">>, Skeletons[f], Laid(Toks[f], LAMBDA i : IF i > Len(Toks[f]) THEN SUB \o tail ELSE " "))>> \o Others, Calls) :
     f \in {"protocol", "schema"}, tail \in Tails}
(* words of the language as names, in every place a name may stand *)
Words == {"array", "boolean", "bytes", "date", "decimal", "double", "enum", "error", "false", "fixed", "float", "idl", "import", "int",
          "local_timestamp_ms", "long", "map", "null", "oneway", "protocol", "namespace", "record", "schema", "string", "throws",
          "timestamp_ms", "time_ms", "true", "union", "uuid", "void", "NaN", "Infinity", "ordinary"}
WordUnit(k, x) ==
  CASE k = "field" -> UProto("P", <<>>, <<DRecord("R", <<>>, <<FV(TPrim("int", 110), <<V(x, 115)>>)>>, 100)>>)
  [] k = "protocol" -> UProto(x, <<>>, <<>>)
  [] k = "type" -> UProto("P", <<>>, <<DRecord(x, <<>>, <<FV(TRefQ(x, 110), <<V("a", 115)>>)>>, 100)>>)
  [] k = "dotted" -> UProto("P", <<>>, <<DFixed("q." \o x, <<>>, "3", 100), DRecord("R", <<>>, <<FV(TRef("q." \o x, 210), <<V("a", 215)>>)>>, 200)>>)
  [] k = "spaced" -> UProto("P", <<>>, <<DFixed(x \o ".T", <<>>, "3", 100), DRecord("R", <<>>, <<FV(TArr(TRef(x \o ".T", 211), 210), <<V("a", 215)>>)>>, 200)>>)
  [] k = "symbol" -> UProto("P", <<>>, <<[DEnum("E", <<>>, <<"A", x>>, 100) EXCEPT !.dflt = <<[s |-> x, id |-> 130]>>]>>)
  [] k = "message" -> UProto("P", <<>>, <<DMsg(x, TVoid(110), <<FV(TPrim("int", 120), <<V(x, 125)>>)>>, <<>>, FALSE, 105)>>)
  [] k = "throws" -> UProto("P", <<>>, <<[DRecord(x, <<>>, <<>>, 100) EXCEPT !.k = "error"], DMsg("m", TVoid(210), <<>>, <<[n |-> x, id |-> 220]>>, FALSE, 205)>>)
  [] k = "annotation" -> UProto("P", <<An(x, Int("1"), 1)>>, <<DRecord("R", <<>>, <<FV([TPrim("int", 112) EXCEPT !.annos = <<An(x, Int("1"), 111)>>], <<V("a", 115)>>)>>, 100)>>)
  [] OTHER -> UBare(<<x>>, <<DRecord("R", <<>>, <<>>, 100)>>)
Named(u) == LET t == TLCEval(PUnit(u)) IN
            Laid(TLCEval([i \in 1..Len(t) |-> IF "nm" \in DOMAIN t[i] THEN [t[i] EXCEPT !.s = Quoted(@)] ELSE t[i]]), LAMBDA i : " ")
WordWorlds(deep) ==
  {MWorld(IF k = "namespace" THEN "schemata" ELSE "idl", <<>>, <<LText(<<"m.avdl">>, WordUnit(k, x), Named(WordUnit(k, x)))>>, Calls) : x \in Words,
     k \in {"field", "protocol", "type", "dotted", "spaced", "symbol", "message", "throws", "annotation", "namespace"}}
=============================================================================
