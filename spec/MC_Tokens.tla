------------------------------- MODULE MC_Tokens -------------------------------
(* Texts near others: a token gone, twice, exchanged, replaced, added, the rest cut    *)
(* off.  The parser of the specification says what such a text is, and so what it does *)
(* or that it is no text of the language.                                               *)
EXTENDS MC_Docs, AvdlParser

D(p, s, q, annos, b) == [k |-> "dec", n |-> "decimal", p |-> [s |-> p, id |-> b + 1], s |-> IF s = "" THEN <<>> ELSE <<[s |-> s, id |-> b + 2]>>, q |-> q, annos |-> annos, id |-> b]
Bases == [
  protocol |-> Skeletons.protocol,
  schema |-> Skeletons.schema,
  bare |-> UBare(<<"n">>, <<DEnum("E", <<>>, <<"A", "B">>, 200), [DRecord("R", <<>>, <<FV(TRefQ("E", 310), <<[V("e", 315) EXCEPT !.dflt = <<Str("A")>>]>>)>>, 300) EXCEPT !.k = "error"],
                    DImport("schema", <<"s.avsc">>, 400), DFixed("F", <<>>, "3", 500)>>),
  types |-> UProto("Q", <<>>,
     <<DRecord("a.R", <<An("aliases", Arr(<<Str("O"), Str("b.O")>>), 101)>>,
         <<FV(TUni(<<TPrim("null", 111), TMap(TUni(<<TPrim("int", 114), TRef("a.R", 115)>>, 113), 112), D("9", "2", FALSE, <<>>, 117)>>, 110),
              <<[V("u", 118) EXCEPT !.dflt = <<Null>>]>>),
           FV([TPrim("long", 121) EXCEPT !.annos = <<An("logicalType", Str("time-micros"), 120)>>, !.q = TRUE],
              <<[V("l", 125) EXCEPT !.dflt = <<Int("-5")>>, !.annos = <<An("order", Str("ignore"), 124)>>], V("k", 128)>>),
           FV(TPrim("date", 130), <<V("d", 131)>>), FV(TPrim("uuid", 132), <<[V("v", 133) EXCEPT !.dflt = <<Str("x")>>]>>)>>, 102),
       DMsg("m", TRef("a.R", 205), <<FV(TPrim("float", 211), <<[V("p", 212) EXCEPT !.dflt = <<Flt("1.5")>>]>>)>>, <<>>, FALSE, 204)>>),
  values |-> UProto("V", <<An("x", Obj(<<P("a", Arr(<<Int("1"), Bool(TRUE)>>)), P("b", Obj(<<P("c", Null)>>))>>), 1)>>,
     <<DRecord("R", <<>>, <<FV(TArr(TPrim("int", 111), 110), <<[V("a", 112) EXCEPT !.dflt = <<Arr(<<Int("1"), Int("2")>>)>>]>>),
                          FV(TMap(TPrim("string", 121), 120), <<[V("m", 122) EXCEPT !.dflt = <<Obj(<<P("k", Str("v"))>>)>>]>>),
                          FV(TPrim("boolean", 130), <<[V("t", 132) EXCEPT !.dflt = <<Bool(FALSE)>>]>>)>>, 100),
       DRecord("S", <<>>, <<FV(TRef("R", 210), <<[V("r", 212) EXCEPT !.dflt = <<Obj(<<>>)>>]>>)>>, 200)>>)]
BaseNames == DOMAIN Bases
Base == TLCEval([b \in BaseNames |-> LET t == PUnit(Bases[b]) IN TLCEval([i \in 1..Len(t) |-> t[i].s])])
Vocabulary ==
  {"(", ")", "{", "}", "[", "]", ":", ";", ",", "@", "=", "?", "<", ">",
   "protocol", "namespace", "import", "idl", "schema", "enum", "fixed", "error", "record", "array", "map", "union", "boolean", "int", "long",
   "float", "double", "string", "bytes", "null", "true", "false", "decimal", "date", "uuid", "void", "oneway", "throws",
   "R", "a.R", "Gone", "namespace", "order", "\"s.avsc\"", "\"n\"", "1", "-5", "1.5", "NaN"}
Few == {"(", ")", "{", "}", ";", ",", "@", "=", "?", "<", ">", "record", "void", "null", "R", "\"n\"", "1", "import", "schema", "oneway", "[", ":", "error"}
FTok(path, ss) == LET p == TLCEval(Parsing(Lexed(ss))) IN
  (IF p.i = 0 THEN FBadAt(path, p.f) ELSE FIdl(path, p.v)) @@ [words |-> ss]
KWorld(api, ss) == MWorld(api, <<>>, <<FTok(<<"m.avdl">>, ss)>> \o Others, <<CFile(<<"m.avdl">>)>>)
ApiOf(b) == IF b = "bare" THEN "schemata" ELSE "idl"
Span(b) == 1..Len(Base[b])
Cut(q, i, k) == SubSeq(q, 1, i - 1) \o SubSeq(q, k + 1, Len(q))              \* without i..k
PutIn(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
Swap(q, i, k) == [q EXCEPT ![i] = q[k], ![k] = q[i]]
(* A message whose result is a type called `oneway` or `throws`, at the start of an item:
   the code's prediction of the item refuses it (known finding, QuirkWorlds).         *)
Quirk(x) == x.files[1].kind = "idl" /\ LET q == x.files[1].words IN
  \E i \in 2..Len(q) : q[i] \in {"oneway", "throws"} /\ q[i - 1] \in {"{", "}", ";"}
Sound(W) == {x \in W : ~Quirk(x)}
(* The parser undoes the printing (the numbers of the constructs aside). *)
BaseWorlds(deep) == {IF PUnit(Parsed(Base[b])[1])[1].s = Base[b][1] THEN KWorld(api, Base[b]) ELSE Null : b \in BaseNames, api \in {"idl", "schemata"}}
GoneWorlds(deep) == UNION {{KWorld(ApiOf(b), Cut(Base[b], i, k)) : <<i, k>> \in {x \in Span(b) \X Span(b) : x[1] <= x[2] /\ (deep \/ x[2] - x[1] < 8)}} : b \in BaseNames}
TwiceWorlds(deep) == UNION {{KWorld(ApiOf(b), SubSeq(Base[b], 1, k) \o SubSeq(Base[b], i, Len(Base[b]))) :
                              <<i, k>> \in {x \in Span(b) \X Span(b) : x[1] <= x[2] /\ (deep \/ x[2] - x[1] < 8)}} : b \in BaseNames}
SwapWorlds(deep) == UNION {{KWorld(ApiOf(b), Swap(Base[b], i, k)) : <<i, k>> \in {x \in Span(b) \X Span(b) : x[1] < x[2] /\ (deep \/ x[2] - x[1] < 6)}} : b \in BaseNames}
PutOf(b, vs) == {KWorld(ApiOf(b), PutIn(Base[b], i, x)) : i \in 1..(Len(Base[b]) + 1), x \in vs}
InsteadOf(b, vs) == {KWorld(ApiOf(b), [Base[b] EXCEPT ![i] = x]) : i \in Span(b), x \in vs}
PutWorlds(deep) == Sound(IF deep THEN UNION {PutOf(b, Vocabulary) : b \in BaseNames} ELSE PutOf("protocol", Few) \cup PutOf("types", Few))
InsteadWorlds(deep) == Sound(IF deep THEN UNION {InsteadOf(b, Vocabulary) : b \in BaseNames} ELSE InsteadOf("protocol", Few) \cup InsteadOf("schema", Few))
(* whole phrases, anywhere or instead of a token *)
Phrases ==
  {<<"@", "x", "(", "1", ")">>, <<"@", "namespace", "(", "\"q\"", ")">>, <<"@", "order", "(", "\"ignore\"", ")">>, <<"@", "aliases", "(", "[", "\"z\"", "]", ")">>,
   <<"@", "logicalType", "(", "\"date\"", ")">>, <<"@", "doc", "(", "\"d\"", ")">>, <<"=", "null">>, <<"=", "1">>, <<"=", "[", "]">>, <<"=", "{", "}">>, <<"=", "\"A\"">>, <<"=", "A", ";">>,
   <<",", "k">>, <<",", "z", "=", "null">>, <<",", "int">>, <<"null", ",">>, <<"array", "<", "int", ">">>, <<"map", "<", "R", ">">>, <<"union", "{", "null", ",", "R", "}">>,
   <<"union", "{", "int", "}">>, <<"decimal", "(", "3", ",", "4", ")">>, <<"decimal", "(", "4", ")", "?">>, <<"int", "z", ";">>, <<"Gone", "?", "z", ",", "y", ";">>,
   <<"record", "X", "{", "}">>, <<"error", "R", "{", "int", "a", ";", "}">>, <<"enum", "Y", "{", "A", ",", "A", "}">>, <<"enum", "Z", "{", "}", "=", "A", ";">>,
   <<"enum", "int", "{", "B", "}">>, <<"fixed", "G", "(", "0", ")", ";">>, <<"fixed", "n.F", "(", "-1", ")", ";">>, <<"import", "schema", "\"s.avsc\"", ";">>,
   <<"import", "idl", "\"gone.avdl\"", ";">>, <<"void", "f", "(", ")", "oneway", ";">>, <<"R", "g", "(", "int", "a", ",", "R", "a", ")", ";">>,
   <<"throws", "Err", ",", "R">>, <<"oneway">>, <<"namespace", "q", ";">>, <<"schema", "int", ";">>, <<"schema", "R", "?", ";">>, <<"protocol", "T", "{", "}">>,
   <<"}", "protocol", "T", "{">>, <<"}", "record", "W", "{">>, <<";", "int", "w">>, <<")", ";", "void", "h", "(">>, <<">", "?", ">">>, <<"(", ")">>, <<"{", "}">>, <<"[", "]">>}
Splice(q, i, k, x) == SubSeq(q, 1, i - 1) \o x \o SubSeq(q, k, Len(q))
PhraseOf(b) == {KWorld(ApiOf(b), Splice(Base[b], i, i + n, x)) : i \in 1..Len(Base[b]), n \in {0, 1}, x \in Phrases}
(* mistakes that the code has words of its own for, anywhere and instead of a token *)
Mistakes ==
  {<<"union", "{", "}", "x", ";">>, <<"map", "<", ">", "x", ";">>, <<"array", "<", ">", "x", ";">>, <<"map", "<", "array", "<", ">", ">", "x", ";">>,
   <<"fixed", "X", "(", "a", ")", ";">>, <<"fixed", "X", "(", ")", ";">>, <<"fixed", "X", "(", "1.5", ")", ";">>, <<"fixed", "(", "4", ")", ";">>,
   <<"record", "{", "int", "a", ";", "}">>, <<"enum", "{", "A", "}">>, <<"error", "{", "}">>, <<"protocol", "{", "}">>,
   <<"enum", "X", "{", "A", ",", "B", ",", "}">>, <<"enum", "X", "{", "A", "B", "}">>, <<"enum", "X", "{", ",", "}">>,
   <<"recrod", "X", "{", "int", "a", ";", "}">>, <<"enmu", "X", "{", "A", "}">>, <<"improt", "idl", "\"s.avsc\"", ";">>, <<"protocl", "X", "{", "}">>,
   <<"record", "X", "{", "int", "a", ";">>, <<"enum", "X", "{", "A">>, <<"record", "X", "{", "record", "Y", "{", "}">>, <<"record", "X", "{", "int", "a", "=", "{", ";", "}">>,
   <<"import", "\"s.avsc\"", ";">>, <<"import", "schema", "s", ";">>, <<"import", "avsc", "\"s.avsc\"", ";">>,
   <<"@", "x", "record", "X", "{", "}">>, <<"@", "record", "X", "{", "}">>, <<"@", "x">>, <<"@", "x", "(", "abc", ")">>, <<"@", "x", "(", ")">>, <<"@", "(", "1", ")">>,
   <<"@", "x", "(", "{", "a", ":", "1", "}", ")">>, <<"@", "x", "(", "[", "1", ",", "]", ")">>,
   <<"int", "a">>, <<"int", "a", "=", ";">>, <<"int", "a", "=", "abc", ";">>, <<"int", ";">>, <<"void", "v", ";">>, <<"decimal", "(", ")", "d", ";">>, <<"decimal", "d", ";">>,
   <<"int", "f", "(", "int", ")", ";">>, <<"int", "f", "(", "int", "a", ",", ")", ";">>, <<"int", "f", "(", ")", "{", "}">>, <<"optional", "int", "a", ";">>}
MistakeOf(b, step) == {KWorld(ApiOf(b), Splice(Base[b], i, i + n, x)) : i \in {k \in 1..Len(Base[b]) : k % step = 0}, n \in {0, 1}, x \in Mistakes}
MistakeWorlds(deep) == Sound(MistakeOf("types", IF deep THEN 1 ELSE 3) \cup MistakeOf("protocol", IF deep THEN 1 ELSE 3) \cup MistakeOf("schema", 1))
PhraseWorlds(deep) == Sound(PhraseOf("protocol"))
OtherPhraseWorlds(deep) == Sound(IF deep THEN UNION {PhraseOf(b) : b \in BaseNames \ {"protocol"}} ELSE PhraseOf("types"))
(* a word for a word, two at once *)
WordsIn(b) == {i \in Span(b) : Kind(Base[b][i]) # "punct"}
TwoOf(b, vs) == {KWorld(ApiOf(b), [Base[b] EXCEPT ![i] = x, ![k] = y]) : i \in WordsIn(b), k \in WordsIn(b), x \in vs, y \in vs}
TwoWorlds(deep) == Sound(IF deep THEN UNION {TwoOf(b, {"R", "E", "int", "null", "n", "record", "1", "\"A\""}) : b \in BaseNames} ELSE TwoOf("bare", {"R", "n", "int"}) \cup TwoOf("schema", {"R", "int"}))
QuirkTexts == {<<"protocol", "P", "{", "record", r, "{", "}", r, "m", "(", ")", ";", "}">> : r \in {"oneway", "throws"}}
QuirkWorlds(deep) == {KWorld("idl", q) : q \in QuirkTexts}
CutOffWorlds(deep) == UNION {{KWorld(ApiOf(b), SubSeq(Base[b], 1, i)) : i \in 0..Len(Base[b])} : b \in BaseNames}
=============================================================================
