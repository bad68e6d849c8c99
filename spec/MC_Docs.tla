-------------------------------- MODULE MC_Docs --------------------------------
(* Documentation comments in every gap between two tokens, with every company of other *)
(* comments and blanks; and comments of every short text.                              *)
EXTENDS AvdlWorlds, AvdlDocs

An(n, v, b) == [n |-> n, v |-> v, id |-> b]
V(n, b) == FVar(n, <<>>, b)
VA(n, b) == [FVar(n, <<Int("7")>>, b) EXCEPT !.annos = <<An("order", Str("ignore"), b - 2), An("x", Obj(<<P("k", Int("1"))>>), b - 1)>>]
FV(t, vs) == [doc |-> <<>>, type |-> t, vars |-> vs]
Skeletons == [
  protocol |-> UProto("P", <<An("namespace", Str("n"), 1), An("x", Arr(<<Int("1"), Null>>), 2)>>,
     <<DRecord("R", <<An("y", Str("z"), 101)>>, <<FV([TPrim("int", 112) EXCEPT !.annos = <<An("u", Int("1"), 111)>>], <<V("a", 115), VA("b", 120)>>),
                                                 FV(TRefQ("R", 130), <<V("c", 132)>>)>>, 102),
       [DEnum("E", <<>>, <<"A", "B">>, 200) EXCEPT !.dflt = <<[s |-> "A", id |-> 230]>>],
       DFixed("F", <<An("aliases", Arr(<<Str("G")>>), 301)>>, "3", 302),
       [DMsg("m", TPrim("string", 405), <<FV(TArr(TPrim("int", 411), 410), <<V("p", 412)>>), FV(TPrim("long", 420), <<VA("q", 425)>>)>>,
            <<[n |-> "Err", id |-> 430]>>, FALSE, 404) EXCEPT !.annos = <<An("w", Int("1"), 401)>>],
       [DRecord("Err", <<>>, <<>>, 500) EXCEPT !.k = "error"],
       DMsg("n", TVoid(605), <<>>, <<>>, TRUE, 600)>>),
  schema |-> USchema(<<"n">>, TUni(<<TPrim("null", 11), TRef("R", 12)>>, 10),
     <<DImport("schema", <<"s.avsc">>, 50), DRecord("R", <<>>, <<FV(TMap(TRef("S", 111), 110), <<V("a", 115)>>),
         FV([k |-> "dec", p |-> [s |-> "4", id |-> 121], s |-> <<[s |-> "2", id |-> 122]>>, q |-> TRUE, annos |-> <<>>, id |-> 120], <<V("d", 125)>>)>>, 100),
       DEnum("E", <<>>, <<"A">>, 200)>>),
  bare |-> UBare(<<>>, <<DEnum("E", <<>>, <<"A">>, 200), DRecord("R", <<>>, <<>>, 300), DImport("schema", <<"s.avsc">>, 400), DFixed("F", <<>>, "3", 500)>>)]
(* their tokens, made once *)
Toks == TLCEval([f \in DOMAIN Skeletons |-> TLCEval(PUnit(Skeletons[f]))])
Others == <<FJson(<<"s.avsc">>, Obj(<<P("type", Str("fixed")), P("name", Str("S")), P("namespace", Str("n")), P("size", Int("2"))>>))>>
FText(path, u, lazy) == LET els == TLCEval(lazy) IN IF Assert(EachOnce(els), "a comment documents two things or none and is not astray")
                       THEN FIdl(path, Documented(u, els)) @@ [toks |-> Source(els)] ELSE FIdl(path, u)
Companies(n) == {
  <<Doc(" one ", n)>>, <<Doc(" one ", n), Doc(" two ", n + 1)>>, <<Doc(" one ", n), Ws("\n\n\t"), Doc(" two ", n + 1), Ws("\r\n")>>,
  <<Doc(" one ", n), Com("/* c */")>>, <<Com("/* c */"), Doc(" one ", n)>>, <<Doc("one", n), Com("// two\n")>>, <<Com("// two\n"), Doc("one", n), Ws(" \f ")>>,
  <<Doc(" one ", n), Com("/* /** */"), Doc(" two ", n + 1)>>, <<Doc(" one ", n), Com("/*c*/"), Com("//\n")>>,
  <<Doc(" ", n)>>, <<Doc("", n)>>, <<Doc(" one ", n), Doc("", n + 1)>>, <<Doc("", n), Doc("one", n + 1)>>, <<Doc(" \n ", n), Ws(" ")>>,
  <<Doc("* one", n), Ws("\n")>>, <<Com("/* * one */")>>, <<Com("/*\n * one\n */")>>, <<Com("// /** one */\n")>>, <<Doc(" // one", n)>>, <<Doc(" /* /** one \"{ ", n)>>}
Gaps(f) == 1..(Len(Toks[f]) + 1)
Calls == <<CFile(<<"m.avdl">>), CDrain>>
(* An empty comment is a comment of its own only if no comment ends after it. *)
Empties == {<<Com("/**/")>>, <<Doc(" one ", 1), Com("/**/")>>, <<Doc(" one ", 1), Ws("\n"), Com("/**/"), Ws("\n")>>, <<Doc(" one ", 1), Com("// c\n"), Com("/**/")>>,
            <<Doc(" one ", 1), Doc(" two ", 2), Com("/**/")>>, <<Doc(" one ", 1), Com("/* c */"), Com("/**/")>>, <<Com("/**/"), Com("// /** c\n")>>}
EmptyCommentWorlds(deep) ==
  {MWorld("idl", <<>>, <<FText(<<"m.avdl">>, Skeletons.protocol, Insert(Toks.protocol, g, c))>> \o Others, Calls) : g \in Gaps("protocol"), c \in Empties}
  \cup {MWorld("schemata", <<>>, <<FText(<<"m.avdl">>, Skeletons.bare, Insert(Toks.bare, g, c))>> \o Others, Calls) : g \in Gaps("bare"), c \in Empties}
GapsOf(f) ==
  {MWorld(IF f = "bare" THEN "schemata" ELSE "idl", <<>>, <<FText(<<"m.avdl">>, Skeletons[f], Insert(Toks[f], g, c))>> \o Others, Calls) :
     g \in Gaps(f), c \in Companies(1)}
ProtocolGaps(deep) == GapsOf("protocol")
SchemaGaps(deep) == GapsOf("schema")
BareGaps(deep) == GapsOf("bare")
(* in an imported file *)
ImportedGapsOf(f) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("M", <<>>, <<DImport("idl", <<"i.avdl">>, 10), [DRecord("Own", <<>>, <<>>, 100) EXCEPT !.doc = <<"mine">>]>>)),
                         FText(<<"i.avdl">>, Skeletons[f], Insert(Toks[f], g, c))>> \o Others, Calls) :
     g \in Gaps(f), c \in {<<Doc(" one ", 1)>>, <<Doc(" one ", 1), Doc(" two ", 2)>>}}
ImportedGaps(deep) == ImportedGapsOf("protocol")
ImportedSchemaGaps(deep) == ImportedGapsOf("schema")
(* two gaps at once, near each other or not *)
PairGapWorlds(deep) ==
  {MWorld("idl", <<>>, <<FText(<<"m.avdl">>, Skeletons.protocol, Insert(Insert(Toks.protocol, g + d, c), g, <<Doc(" first ", 9)>>))>> \o Others, Calls) :
     g \in Gaps("protocol"), d \in {x \in 0..(IF deep THEN 20 ELSE 3) : TRUE}, c \in {<<Doc(" second ", 1)>>, <<Doc("", 1)>>}}
(* a comment in every gap *)
RECURSIVE Everywhere(_, _, _)
Everywhere(els, i, every) ==
  IF i > Len(els) THEN <<Doc(" last ", 9000)>>
  ELSE (IF i % every = 0 THEN <<Doc(" doc " \o ToString(i) \o " ", i)>> ELSE <<Com("/* c */")>>) \o <<els[i]>> \o Everywhere(els, i + 1, every)
EveryWorlds(deep) ==
  {MWorld("idl", <<>>, <<FText(<<"m.avdl">>, Skeletons[f], Everywhere(Toks[f], 1, e))>> \o Others, Calls) :
     f \in {"protocol", "schema"}, e \in 1..5}

(* ---- texts ---- *)
Alphabet == <<"a", " ", "*", "\n", "\t", "\r\n">>
RECURSIVE TextOf(_, _)
TextOf(n, len) == IF len = 0 THEN "" ELSE Alphabet[(n % 6) + 1] \o TextOf(n \div 6, len - 1)
RECURSIVE Pow6(_)
Pow6(n) == IF n = 0 THEN 1 ELSE 6 * Pow6(n - 1)
PerFile == 60
(* one record, a field for every text *)
TextUnit(texts) == UBare(<<>>, <<DRecord("R", <<>>, TLCEval([i \in 1..Len(texts) |-> FField(TPrim("int", 1000 + 10 * i), "f" \o ToString(i), 1005 + 10 * i)]), 100)>>)
TextEls(texts) == T("record") \o T("R") \o T("{")
                  \o Flat(TLCEval([i \in 1..Len(texts) |-> <<Doc(texts[i], i)>> \o PField(FField(TPrim("int", 1000 + 10 * i), "f" \o ToString(i), 1005 + 10 * i)) \o T(";")]), 1)
                  \o T("}")
TextFile(texts) == FText(<<"m.avdl">>, TextUnit(texts), TextEls(texts))
ChunkOf(len, k) == LET n == Pow6(len) lo == k * PerFile hi == IF lo + PerFile > n THEN n ELSE lo + PerFile IN
                   TLCEval([i \in 1..(hi - lo) |-> TextOf(lo + i - 1, len)])
TextWorlds(deep) ==
  {MWorld("schemata", <<>>, <<TextFile(ChunkOf(len, k))>>, Calls) :
     len \in {IF deep THEN 6 ELSE 5}, k \in 0..((Pow6(IF deep THEN 6 ELSE 5) - 1) \div PerFile)}
ShortTextWorlds(deep) == {MWorld("schemata", <<>>, <<TextFile(ChunkOf(len, 0))>>, Calls) : len \in 0..2}
FourTextWorlds(deep) == {MWorld("schemata", <<>>, <<TextFile(ChunkOf(IF k < 4 THEN 3 ELSE 4, IF k < 4 THEN k ELSE k - 4))>>, Calls) : k \in 0..25}
(* three lines of these, with either line break *)
Lines == <<"", "x", " x", "  x", "* x", " * x", " ** x", "\t* x ", "   ", "**", "** y", " *", " - x", "/* x", "\tx", " \tx">>
LineText(n) == LET br == IF n % 2 = 0 THEN "\n" ELSE "\r\n"
                   m == n \div 2
                   L(k) == Lines[(k % 16) + 1] IN
               L(m) \o br \o L(m \div 16) \o br \o L(m \div 256)
LineWorlds(deep) ==
  {MWorld("schemata", <<>>, <<TextFile(TLCEval([i \in 1..PerFile |-> LineText(k * PerFile + i - 1)]))>>, Calls) : k \in 0..(8192 \div PerFile - 1)}
(* lines of other scripts; and lines that begin with other white space, of which only is  *)
(* known that they are no error                                                          *)
OtherLines == <<"", "é", " é", " * é😀", "  😀x", "* ", " ** é*", "日本">>
SpaceLines == <<"", "x", " x", " 　x", "　* x", " * 　x", "  é", " 　">>
EightText(ls, n) == LET br == IF n % 2 = 0 THEN "\n" ELSE "\r\n"
                        m == n \div 2
                        L(k) == ls[(k % 8) + 1] IN
                    L(m) \o br \o L(m \div 8) \o br \o L(m \div 64)
EightWorlds(ls) == {MWorld("schemata", <<>>, <<TextFile(TLCEval([i \in 1..PerFile |-> EightText(ls, (k * PerFile + i - 1) % 1024)]))>>, Calls) : k \in 0..(1024 \div PerFile)}
OtherLineWorlds(deep) == EightWorlds(OtherLines)
SpaceLineWorlds(deep) == EightWorlds(SpaceLines)
=============================================================================
