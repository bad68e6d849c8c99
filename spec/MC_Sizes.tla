------------------------------- MODULE MC_Sizes -------------------------------
(* Texts of any size, and the times and depths they take.  A part [s, n] of a text is s, *)
(* n times over, where #i stands for the number of the copy (from 0) and #j for the one   *)
(* before.  passes: the text is a valid program, so it is accepted; otherwise what is    *)
(* made of it is open, but a call returns.                                               *)
EXTENDS AvdlWorlds

One(s) == [s |-> s, n |-> 1]
Many(s, n) == [s |-> s, n |-> n]
Sized(parts, passes) == FWild(<<"m.avdl">>, FALSE) @@ [parts |-> parts, passes |-> passes]
SWorld(api, parts, passes) == MWorld(api, <<>>, <<Sized(parts, passes)>>, <<CFile(<<"m.avdl">>), CDrain>>)
InP(s, n) == <<One("protocol P {\n"), Many(s, n), One("}\n")>>
InR(a, s, n, b) == <<One("protocol P { record R {\n" \o a), Many(s, n), One(b \o "} }\n")>>
(* Programs that grow in one way each. *)
Long(n) == {
  InP("record R#i { int f; }\n", n),
  InP("@a(1) /** d */ fixed F#i(#i);\n", n),
  InP("record R#i { R#j? f; array<R#i> g = []; }\n", n),
  InR("", "int f#i;\n", n, ""),
  InR("int z", ", f#i = #i\n", n, ";"),
  InR("array<int> a = [0", ", #i\n", n, "];"),
  InR("map<int> a = {\"x\": 0", ", \"k#i\": #i\n", n, "};"),
  InR("string s = \"", "a\\n\\u00e9", n, "\";"),
  InR("@x(0x", "1", n, "p3) int a;"),
  InR("@x(0.", "1", n, "e-5) int a;"),
  InR("@x(0x1.", "1", n, "p3) int a;"),
  InR("", "@a#i(\"x\")\n", n, "int a;"),
  InR("", "/* c */ // d\n", n, "int a;"),
  InR("/**\n", " * line #i\n", n, "*/ int a;"),
  InR("/**\n", "  ** #i\n", n, "*/ int a;"),
  InR("", " \n\t\r\n", n, "int a;"),
  InR("int ", "a", n, ";"),
  InR("int @aliases([\"z\"", ", \"a#i\"\n", n, "]) a;"),
  InP("/** d */\n", n), 
  <<One("protocol P { error E {}\n")>> \o <<Many("void m#i(int a = #i, string b) throws E;\n", n), One("}")>>,
  <<One("protocol P { void m(int z"), Many(", int a#i", n), One("); }")>>,
  <<One("protocol P { error E {} void m() throws E"), Many(", E", n), One("; }")>>,
  <<One("protocol P { enum E { Z"), Many(",\nS#i", n), One("} = Z; }")>>,
  <<One("@namespace(\"a"), Many(".a", n), One("\") protocol P { record R { } }")>>,
  <<One("protocol P { "), Many("fixed F#i(1);", n), One("record R { union { int"), Many(", F#i", n), One("} u; } }")>>,
  <<One("schema int;\n"), Many("enum E#i { A#i }", n)>>,
  <<One("namespace a;\n"), Many("record R#i {}", n)>>}
Longs(deep) == {SWorld(IF p[1].s \in {"schema int;\n", "namespace a;\n"} THEN "schemata" ELSE "idl", p, TRUE) : p \in Long(IF deep THEN 4000 ELSE 1500)}
(* Texts that are no programs, or hardly. *)
Odd(n) == {
  InR("@x(", "1", n, ") int a;"), InP("void m#i(int a, string b) throws E;\n", n) \o <<One("protocol Q { error E {} }")>>,
  InP("# ", n), InP("int ; \n", n), InP("a ", n), InP("@a ", n), InP("\"x\" ", n), InP("} ", n), InP("record R { ", n), InP("` ", n), InP("@a(1) ;", n),
  InP("enum E { a, ", n), InP("record ", n), InP("import idl \"x\"\n", n), InP("/** d */ ;", n), InP("void m(", n), InP("union { ", n), InP("?", n), InP(", ", n), InP("1 ", n),
  InR("", "int = \n", n, ""), InR("", "a ", n, ""), InR("", "U#i f#i;\n", n, ""), InR("int a = ", "[", n, ""), InR("int a = ", "{\"a\":", n, ""), InR("int a = ", "-", n, ""), InR("", "array<", n, ""),
  InR("@x(", "[", n, ""), InR("union {", "union {", n, ""), InR("int a", " = 1", n, ";"), InR("int a", ", ", n, ";"), InR("a", ".a", n, " b;"), InR("", "?", n, ""),
  <<Many("\"", n)>>, <<Many("/", n)>>, <<One("/"), Many("*", n)>>, <<Many("/*", n)>>, <<Many("/**", n)>>, <<Many("`a`.", n)>>, <<Many("`", n)>>, <<Many("\\", n)>>, <<Many("\"\\", n)>>,
  <<Many("/***/", n)>>, <<Many("//x", n)>>, <<Many("protocol ", n)>>, <<Many("protocol P { }", n)>>, <<Many("schema int;", n)>>, <<Many("namespace a;", n)>>, <<Many("(", n)>>, <<Many("<", n)>>,
  <<Many("()", n)>>, <<Many("<>", n)>>, <<Many("{[(<", n)>>, <<Many("0x", n)>>, <<Many("1.", n)>>, <<Many("-", n)>>, <<Many("1e", n)>>, <<Many("é", n)>>, <<Many("😀", n)>>, <<Many("\\u00e9", n)>>,
  <<One("protocol P { "), Many("record R#i {}", n), One("record R { "), Many("U#i f#i;\n", n), One("} }")>>,
  <<One("protocol P { record R { int a = "), Many("[", n), Many("]", n), One("; } }")>>,
  <<One("protocol P { record R { @x("), Many("[", n), Many("]", n), One(") int a; } }")>>,
  <<One("protocol P { record R { "), Many("array<", n), One("int"), Many(">", n), One(" a; } }")>>,
  <<One("protocol P { record R { "), Many("union{", n), One("int"), Many("}", n), One(" a; } }")>>,
  <<One("protocol P { record R0 { int a = 1; int b = 2; }"), Many("record S#i { int a; }", n), One("}")>>}
Odds(deep) == UNION {{SWorld("idl", p, FALSE) : p \in Odd(n)} : n \in IF deep THEN {1, 2, 3, 10, 40, 63, 64, 65, 66, 200, 3000, 10000} ELSE {3, 64, 1500}}
(* Nesting behind what no lexeme is made of: where a string or a comment would begin next  *)
(* is as the lexer goes on, and with closing brackets that close nothing in between.      *)
Breaks == {"\"\\q ", "\"a\\\" ", "\"\t", "/\" ", "/ \" ", "`a\" ", "`\" ", "+\"", "+//", "+/*", "-/**", "'\" ", "#\"", "\\\"", "`//", "/`/*", "1e\"", "0x\"", "é`\"", "\"\\u12\" "}
Nests == {"[", "{\"a\":", "array<", "union { ", "@a("}
Opens == Nests \cup {"[1,", "map<", "union { int, ", "array<@a(", "record R {", "int f(", "(", "<", "[[", "array "}
Closes == {")", "]", "}", ">", ";", ",", "=", ":", "x", "1", "@", ")>", "}]", "int >", "1 ]", "} }", "\"a\":"}
Heads3 == {"protocol P { @a( ", "protocol P { record R { int a = ", "record R { ", "schema ", "protocol P { void m("}
Behinds(deep) ==
  UNION {{SWorld("idl", <<One(h \o b), Many(t, n)>>, FALSE) : h \in {"protocol P { @a( ", "protocol P { record R { int a = ", "record R { "}, b \in Breaks, t \in Nests}
           : n \in IF deep THEN {64, 65, 3000, 30000} ELSE {3000}}
Strays(deep) == UNION {{SWorld("idl", <<One(h), Many(t \o c, n)>>, FALSE) : h \in Heads3, t \in Opens, c \in Closes} : n \in IF deep THEN {65, 200, 1000} ELSE {300}}
(* Chains: every declaration needs the next one, every file imports the next one. *)
Forward(n) == <<One("protocol P {\n"), Many("record R#i { R#k f; }\n", n), One("record R"), One(ToString(n)), One(" { } }")>>
Backward(n) == <<One("protocol P { record R0 { }\n"), Many("record R#k { R#i? f; }\n", n), One("record Z { R"), One(ToString(n)), One("? z = null; } }")>>
Wide(n) == <<One("protocol P {\n"), Many("import idl \"f#k.avdl\";\n", n), One("}")>>
Linked(n) == MWorld("idl", <<>>, <<FWild(<<"m.avdl">>, FALSE) @@ [parts |-> <<One("protocol P { import idl \"f1.avdl\"; }")>>, passes |-> TRUE]>>
                    \o TLCEval([i \in 1..n |-> FWild(<<"f" \o ToString(i) \o ".avdl">>, FALSE)
                                 @@ [parts |-> <<One("protocol P { " \o (IF i = n THEN "" ELSE "import idl \"f" \o ToString(i + 1) \o ".avdl\";") \o " record R" \o ToString(i) \o " {} }")>>]]), <<CFile(<<"m.avdl">>), CDrain>>)
Fan(n) == [Linked(n) EXCEPT !.files[1].parts = Wide(n)]
Chains(deep) == UNION {{SWorld("idl", Forward(n), TRUE), Linked(n), Fan(n)} : n \in IF deep THEN {1, 2, 10, 50, 200, 300} ELSE {2, 200}}
                \cup {SWorld("idl", Backward(n), TRUE) : n \in IF deep THEN {1, 10, 1000, 20000, 100000} ELSE {2, 20000}}
(* These are known to be too long for the implementation. *)
LongForward(deep) == {SWorld("idl", Forward(20000), TRUE)}
LongLinked(deep) == {Linked(8000)}
LongLine(deep) == {SWorld("idl", <<One("protocol P { record R { string s = \""), Many("a", 70000), One("\"; int a = \"\"; } }")>>, FALSE)}

(* Lines that end anywhere, and errors on lines of any length: how a report looks is not   *)
(* specified, but there is one.                                                           *)
Lines(n) == {
  <<Many(" ", n), One("x")>>, <<Many("\t", n), One("x")>>, <<Many("é", n), One("x")>>, <<Many("😀", n), One("\n}")>>, <<Many("\n", n), One("}")>>, <<Many("\r\n", n), One("}")>>, <<Many("\r", n), One("}")>>,
  <<One("protocol P { record R { int a = \""), Many("é", n), One("\"; } }")>>, <<One("protocol P { record R { int a = \""), Many("a", n), One("\"; } }")>>,
  <<One("protocol P { /** "), Many("é", n), One(" */ } ")>>, <<One("protocol P { /** "), Many("x\n", n), One(" */ } ")>>, <<One("protocol P { /** "), Many("x\r", n), One(" */ } ")>>,
  <<One("protocol P { record R { "), Many("int", n), One(" a; } }")>>, <<One("protocol P { record R { "), Many("é", n), One(" a; } }")>>, <<One("protocol "), Many("é", n)>>, <<One("protocol P { } "), Many("é", n)>>,
  <<One("protocol P { "), Many("int é() ; é;", IF n > 100 THEN 100 ELSE n), One(" }")>>, <<One("protocol P { import idl \""), Many("é", n), One("\"; }")>>, <<One("protocol P { import idl \""), Many("a/", n), One("\"; }")>>,
  <<One("protocol P { import schema \""), Many("../", n), One("\"; }")>>, <<One("protocol P { @namespace(\""), Many("é ", n), One("\") record R { } }")>>}
LinesWorlds(deep) == UNION {{SWorld("idl", p, FALSE) : p \in Lines(n)} : n \in IF deep THEN {0, 1, 2, 3, 4, 5, 6, 7, 8, 20, 79, 80, 81, 255, 256, 257, 4096, 20000} ELSE {0, 1, 3, 80, 4096}}

(* Bytes that are no text, at each place of files of each kind: an error says so. *)
RawFile(path, hex) == [FBad(path) EXCEPT !.kind = "raw", !.text = hex]
NoText == {"ff", "fe", "80", "bf", "c3", "c0af", "c1bf", "eda080", "edbfbf", "f4908080", "f8888080", "e282", "e28228", "f09f98", "f09f9828", "fffe70", "c328", "a0a1"}
IdlHex == {<<"", "70726f746f636f6c2050207b207d">>, <<"70726f746f636f6c2050207b207d20", "">>, <<"70726f746f636f6c2050207b202f2f20", "20780a207d">>, <<"70726f746f636f6c2050207b202f2a2a20", "2078202a2f207265636f72642052207b207d207d">>, <<"70726f746f636f6c2050207b207265636f72642052207b20737472696e672073203d202278", "223b207d207d">>, <<"70726f746f636f6c2050207b207265636f72642052", "7b207d207d">>, <<"70726f746f636f6c2050207b207265636f72642052207b2040612831", "322920696e7420613b207d207d">>, <<"70726f746f636f6c2050207b202f2a20", "202a2f207265636f72642052207b207d207d">>}
JsonHex == {<<"", "22696e7422">>, <<"22696e7422", "">>, <<"7b2274797065223a226669786564222c226e616d65223a2246222c2273697a65223a342c2278223a2261", "62227d">>, <<"7b2274797065223a226669786564222c226e616d65223a2246", "20222c2273697a65223a347d">>, <<"7b2274797065223a226669786564222c226e616d65223a2246222c2273697a65223a34202f2a20", "2a2f7d">>, <<"7b2274797065223a226669786564222c226e616d65223a2246222c2273697a65223a34", "7d">>, <<"7b2270726f746f636f6c223a2251222c227479706573223a5b5d2c226d65737361676573223a7b7d2c22646f63223a22", "227d">>}
Importer(kind, p) == FIdl(<<"m.avdl">>, UProto("P", <<>>, <<DImport(kind, p, 10)>>))
BytesWorlds(deep) ==
  {MWorld("idl", <<>>, <<RawFile(<<"m.avdl">>, h[1] \o x \o h[2])>>, <<CFile(<<"m.avdl">>), CDrain>>) : h \in IdlHex, x \in NoText}
  \cup {MWorld("schemata", <<>>, <<RawFile(<<"d", "m.avdl">>, h[1] \o x \o h[2])>>, <<CDir(<<"d">>), CDrain>>) : h \in IdlHex, x \in NoText}
  \cup {MWorld("idl", <<>>, <<Importer("idl", <<"i.avdl">>), RawFile(<<"i.avdl">>, h[1] \o x \o h[2])>>, <<CFile(<<"m.avdl">>), CDrain>>) : h \in IdlHex, x \in NoText}
  \cup {MWorld("idl", <<>>, <<Importer(k, <<"i.json">>), RawFile(<<"i.json">>, h[1] \o x \o h[2])>>, <<CFile(<<"m.avdl">>), CDrain>>) :
          k \in {"schema", "protocol"}, h \in JsonHex, x \in NoText}
===============================================================================
