------------------------------ MODULE MC_Imports ------------------------------
(* Every import graph of a few files: each file is a protocol that declares a      *)
(* record of its own and the message "f", and imports up to two files (itself      *)
(* included), before or after its declarations.  Type order, single import,        *)
(* cycles, name clashes between files and the merging of messages all show here.   *)
EXTENDS AvdlWorlds

PathOf(x) == CASE x = "m" -> <<"m.avdl">> [] x = "a" -> <<"a.avdl">> [] OTHER -> <<"s", "b.avdl">>
JPath == <<"s", "b.avpr">>
SPath == <<"s", "b.avsc">>
(* How the file from is written in file in. *)
Spell(in, to) == IF in = "b" THEN (IF to = "b" THEN <<"b.avdl">> ELSE <<"..">> \o PathOf(to)) ELSE PathOf(to)

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
ImpItem(in, to, bk, b) ==
  IF to = "b" /\ bk = "protocol" THEN DImport("protocol", JPath, b)
  ELSE IF to = "b" /\ bk = "schema" THEN DImport("schema", SPath, b)
  ELSE DImport("idl", Spell(in, to), b)
(* The message f of each file has a different result. *)
ResultOf(x) == CASE x = "m" -> "int" [] x = "a" -> "long" [] OTHER -> "string"
TypeName(x) == CASE x = "m" -> "M" [] x = "a" -> "A" [] OTHER -> "B"
Decls(x, extra) ==
  <<DRecord(TypeName(x), <<>>, <<FField(TPrim(ResultOf(x), 310), "v", 320)>>, 300),
    DMsg("f", TPrim(ResultOf(x), 410), <<>>, <<>>, FALSE, 400)>>
  \o (IF extra = "none" THEN <<>>
      ELSE <<DRecord(extra, <<>>, <<FField(TPrim("double", 510), "w", 520)>>, 500)>>)
  \o <<DMsg("g" \o TypeName(x), TVoid(610), <<>>, <<>>, FALSE, 600)>>
(* split: how many of the imports stand before the declarations *)
UnitOf(x, imps, split, extra, bk) ==
  LET is == TLCEval([i \in 1..Len(imps) |-> ImpItem(x, imps[i], bk, 20 * i + (IF i > split THEN 700 ELSE 0))]) IN
  UProto(TypeName(x) \o "P", <<>>, SubSeq(is, 1, split) \o Decls(x, extra) \o SubSeq(is, split + 1, Len(is)))
JMsg(n) == Obj(<<P("request", Arr(<<>>)), P("response", Str(n))>>)
JRec(n) == Obj(<<P("type", Str("record")), P("name", Str(n)),
                 P("fields", Arr(<<Obj(<<P("name", Str("v")), P("type", Str("string"))>>)>>))>>)
BFile(imps, split, extra, bk) ==
  CASE bk = "idl" -> FIdl(PathOf("b"), UnitOf("b", imps, split, extra, bk))
  [] bk = "protocol" ->
       FJson(JPath, Obj(<<P("protocol", Str("BP")),
                          P("types", Arr(<<JRec("B")>> \o IF extra = "none" THEN <<>> ELSE <<JRec(extra)>>)),
                          P("messages", Obj(<<P("f", JMsg("string")), P("gB", JMsg("null"))>>))>>))
  [] OTHER -> FJson(SPath, Arr(<<JRec("B")>> \o IF extra = "none" THEN <<>> ELSE <<JRec(extra)>>))

Nodes == {"m", "a", "b"}
ImportWorlds(deep) ==
  {MWorld("idl", <<>>,
          <<FIdl(PathOf("m"), UnitOf("m", im, Len(im) - sm, "none", bk)),
            FIdl(PathOf("a"), UnitOf("a", ia, IF sa = 0 THEN Len(ia) ELSE 0, "none", bk)),
            BFile(ib, Len(ib), eb, bk)>>, <<CFile(PathOf("m")), CDrain>>) :
     im \in (Seqs(Nodes, 2) \ {<<>>}), sm \in {0, 1}, ia \in Seqs(Nodes, IF deep THEN 2 ELSE 1), sa \in {0, 1},
     ib \in Seqs(Nodes, IF deep THEN 2 ELSE 1), eb \in {"none", "M"}, bk \in {"idl", "protocol", "schema"}}
(* Files whose names are nearly the same are different files. *)
NearNames == {<<<<"a.avdl">>, <<"A.avdl">>>>, <<<<"a.avdl">>, <<"a.AVDL">>>>, <<<<"s", "b">>, <<"S", "b">>>>, <<<<"s", "b">>, <<"s", "B">>>>, <<<<"s", "b">>, <<"sb">>>>,
              <<<<"s", "b">>, <<"b">>>>, <<<<"s", "b">>, <<"s", "s", "b">>>>, <<<<"a">>, <<"a.avdl">>>>, <<<<"a.avdl">>, <<"a.avpr">>>>, <<<<"a.b">>, <<"a-b">>>>, <<<<"a">>, <<"a ">>>>,
              <<<<"a">>, <<" a">>>>, <<<<"a">>, <<"a.">>>>, <<<<"a1">>, <<"a01">>>>, <<<<"a b">>, <<"a+b">>>>, <<<<"a b">>, <<"a%20b">>>>, <<<<"é">>, <<"e">>>>, <<<<"é">>, <<"É">>>>,
              <<<<"é">>, <<"é">>>>, <<<<"ı">>, <<"i">>>>, <<<<"ß">>, <<"ss">>>>, <<<<"a~">>, <<"a">>>>, <<<<"a#b">>, <<"a">>>>, <<<<"a?b">>, <<"a">>>>, <<<<"a:b">>, <<"b">>>>}
NearFile(how, p, t) ==
  CASE how = "idl" -> FIdl(p, UProto("N", <<>>, <<DRecord(t, <<>>, <<>>, 300)>>))
  [] how = "schema" -> FJson(p, JRec(t))
  [] OTHER -> FJson(p, Obj(<<P("protocol", Str("N")), P("types", Arr(<<JRec(t)>>))>>))
NearNameWorlds(deep) ==
  {MWorld("idl", <<>>, <<FIdl(PathOf("m"), UProto("P", <<>>, <<DImport(h1, IF flip THEN n[2] ELSE n[1], 10), DImport(h2, IF flip THEN n[1] ELSE n[2], 20)>>)),
                         NearFile(h1, IF flip THEN n[2] ELSE n[1], "A"), NearFile(h2, IF flip THEN n[1] ELSE n[2], "B")>>, <<CFile(PathOf("m")), CDrain>>) :
     n \in NearNames, flip \in BOOLEAN, h1 \in {"idl", "protocol", "schema"}, h2 \in {"idl", "protocol", "schema"}}
(* Definitions inside others, in every place where one can be: they come out in the order *)
(* of their text, each inside the first that needs it.                                    *)
JLeaf(k, n) == Obj(<<P("type", Str(k)), P("name", Str(n))>> \o (CASE k = "enum" -> <<P("symbols", Arr(<<Str("S")>>))>> [] k = "fixed" -> <<P("size", Int("2"))>> [] OTHER -> <<P("fields", Arr(<<>>))>>))
JFl(n, t) == Obj(<<P("name", Str(n)), P("type", t)>>)
JBox(k, t) == Obj(<<P("type", Str(k)), P(IF k = "array" THEN "items" ELSE "values", t)>>)
JFs(ts) == Obj(<<P("type", Str("record")), P("name", Str("R")), P("fields", Arr(TLCEval([i \in 1..Len(ts) |-> JFl("f" \o ToString(i), ts[i])])))>>)
Shapes(a, b, c) ==
  {Arr(<<a, b, c>>), Arr(<<Str("null"), JBox("array", a), JBox("map", b), c>>), Arr(<<JFs(<<a, b>>), c>>), Arr(<<c, JFs(<<a, b>>)>>),
   JBox("array", Arr(<<a, b, c>>)), JBox("map", Arr(<<Str("int"), a, JBox("array", Arr(<<b, c>>))>>)), JFs(<<a, b, c>>), JFs(<<Arr(<<a, b>>), c>>), JFs(<<a, Arr(<<b, c>>)>>), JFs(<<JBox("array", a), JBox("map", b), Arr(<<Str("null"), c>>)>>),
   JFs(<<Arr(<<JBox("array", a), b, JBox("map", c)>>)>>), JFs(<<JBox("array", Arr(<<a, b>>)), c>>),
   JFs(<<Obj(<<P("type", Str("record")), P("name", Str("N")), P("fields", Arr(<<JFl("g", Arr(<<a, b>>)), JFl("h", c)>>))>>)>>)}
ThreeKinds == {<<"record", "enum", "fixed">>, <<"enum", "fixed", "record">>, <<"fixed", "record", "enum">>, <<"record", "record", "record">>}
ThreeNames == {<<"A", "B", "C">>, <<"C", "B", "A">>, <<"B", "C", "A">>}
Three(ks, ns, f(_, _)) == TLCEval([i \in 1..3 |-> f(ks[i], ns[i])])
JOrderWorlds(deep) ==
  UNION {LET l == Three(ks, ns, JLeaf) IN
    {MWorld("idl", <<>>, <<FIdl(PathOf("m"), UProto("P", <<>>, <<DImport("schema", SPath, 10), DRecord("M", <<>>, <<>>, 100)>>)), FJson(SPath, j)>>, <<CFile(PathOf("m"))>>) : j \in Shapes(l[1], l[2], l[3])}
    \cup {MWorld("idl", <<>>, <<FIdl(PathOf("m"), UProto("P", <<>>, <<DImport("protocol", JPath, 10), DRecord("M", <<>>, <<>>, 100)>>)),
                               FJson(JPath, Obj(<<P("protocol", Str("Q")), P("types", Arr(ts)), P("messages", Obj(ms))>>))>>, <<CFile(PathOf("m"))>>) :
            ts \in {<<>>, <<JFs(<<l[1], l[2]>>)>>, <<l[1], l[2]>>, <<JFs(<<Arr(<<l[1], l[2]>>)>>)>>},
            ms \in {<<>>, <<P("m", JMsg("null")), P("n", Obj(<<P("request", Arr(<<JFl("p", l[3])>>)), P("response", Str("null"))>>))>>,
                    <<P("n", Obj(<<P("request", Arr(<<>>)), P("response", l[3])>>))>>}}
    : ks \in ThreeKinds, ns \in ThreeNames}
=============================================================================
