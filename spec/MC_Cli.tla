-------------------------------- MODULE MC_Cli --------------------------------
(* Every program, way to name it, place for the output and state of that place.       *)
EXTENDS AvdlCli

Rec(n, b) == DRecord(n, <<>>, <<FField(TPrim("int", b + 10), "f", b + 20)>>, b)
Orph(text, b) == [k |-> "orphan", id |-> b, text |-> text]
Lib == <<FIdl(<<"lib", "l.avdl">>, UBare(<<>>, <<Orph("in l", 20), Rec("L", 100)>>))>>
ImpL == DImport("idl", <<"l.avdl">>, 20)
(* by the name of the program: the main file at a path, and others *)
Main(x, p) ==
  CASE x = "plain" -> FIdl(p, UProto("P", <<NsAnno("n", 1)>>, <<Rec("R", 100), DEnum("E", <<>>, <<"A">>, 200), DMsg("m", TRef("R", 310), <<>>, <<>>, FALSE, 305)>>))
  [] x = "warns" -> FIdl(p, UProto("W", <<>>, <<Orph("one", 10), ImpL, Rec("R", 100), Orph("two", 300)>>))
  [] x = "undefined" -> FIdl(p, UProto("U", <<>>, <<Orph("one", 10), Rec("R", 100), DRecord("X", <<>>, <<FField(TRef("Gone", 210), "g", 220)>>, 200)>>))
  [] x = "syntax" -> [FBad(p) EXCEPT !.text = "protocol P { record R { int } }"]
  [] x = "latin" -> [FBad(p) EXCEPT !.kind = "raw", !.text = "70726f746f636f6c205020207b7d202f2f20e9ff0a"]
  [] x = "missing" -> FIdl(p, UProto("M", <<>>, <<Rec("R", 100), DImport("idl", <<"gone.avdl">>, 200)>>))
  [] x = "schema" -> FIdl(p, USchema(<<>>, TArr(TRef("R", 11), 10), <<Rec("R", 100), Rec("S", 200)>>))
  [] x = "primitive" -> FIdl(p, USchema(<<>>, TPrim("int", 10), <<>>))
  [] x = "bare" -> FIdl(p, UBare(<<"n">>, <<Rec("R", 100), Orph("late", 200)>>))
  [] OTHER -> FIdl(p, UProto("Empty", <<>>, <<>>))
Programs == {"plain", "warns", "undefined", "syntax", "latin", "missing", "schema", "primitive", "bare", "empty"}
Old(p) == [FBad(p) EXCEPT !.text = "old"]
Around == <<FDir(<<"dir">>), Old(<<"old.json">>), Old(<<"dir", "R.avsc">>), FDir(<<"clash">>), FDir(<<"clash", "R.avsc">>),
            FLink(<<"ln.json">>, <<"dir", "t.json">>), Old(<<"dir", "t.json">>), FLink(<<"lnd">>, <<"dir">>)>>
CWorld(api, dirs, main, call, cli) == MWorld(api, dirs, <<main>> \o Lib \o Around, <<call>>) @@ [cli |-> cli]
Args(a, out, dash, sink) == [args |-> a, out |-> out, dash |-> dash, sink |-> sink, again |-> "no"]
Call0(how, p) == IF how = "path" THEN CFile(p) ELSE [op |-> "str", fi |-> 1]
Hows == {"path", "none", "dash"}
IdlOuts == {<<>>, <<<<"new.json">>>>, <<<<"old.json">>>>, <<<<"no", "out.json">>>>, <<<<"dir">>>>, <<<<"dir", "new.json">>>>, <<<<"ln.json">>>>,
            <<<<"lnd", "x.json">>>>, <<<<"old.json", "x">>>>, <<<<".", "dir", "..", "up.json">>>>}
IdlWorlds(deep) ==
  {CWorld("idl", dirs, Main(x, p), Call0(how, p), Args("ok", out, FALSE, "pipe") @@ [how |-> how]) :
     x \in Programs, p \in {<<"m.avdl">>, <<"lib", "m.avdl">>}, how \in {"path", "dash"}, out \in IdlOuts, dirs \in {<<>>, <<<<"lib">>>>}}
  \cup {CWorld("idl", dirs, Main(x, <<"m.avdl">>), Call0(how, <<"m.avdl">>), Args("ok", <<<<"-">>>>, TRUE, sink) @@ [how |-> how]) :
     x \in Programs, how \in {"path", "dash"}, dirs \in {<<>>, <<<<"lib">>>>}, sink \in {"pipe", "full"}}
  \cup {CWorld("idl", dirs, Main(x, <<"m.avdl">>), Call0(how, <<"m.avdl">>), Args("ok", <<>>, FALSE, sink) @@ [how |-> how]) :
     x \in Programs, how \in Hows, dirs \in {<<>>, <<<<"lib">>>>}, sink \in {"pipe", "full"}}
  \cup {CWorld("idl", <<>>, Main("plain", <<"m.avdl">>), CFile(p), Args("ok", out, FALSE, "pipe") @@ [how |-> "path"]) :
     p \in {<<"absent.avdl">>, <<"dir">>, <<"old.json">>}, out \in IdlOuts}
OutDirs == {<<>>, <<<<"dir">>>>, <<<<"new">>>>, <<<<"new", "deep", "er">>>>, <<<<"dir", "new">>>>, <<<<"old.json">>>>, <<<<"old.json", "x">>>>,
            <<<<"clash">>>>, <<<<"lnd">>>>, <<<<"lnd", "new">>>>, <<<<".">>>>, <<<<"dir", "..", "other">>>>}
SchemataWorlds(deep) ==
  {CWorld("schemata", dirs, Main(x, p), CFile(p), Args("ok", out, FALSE, "pipe") @@ [how |-> "path"]) :
     x \in Programs, p \in {<<"m.avdl">>, <<"lib", "m.avdl">>}, out \in OutDirs, dirs \in {<<>>, <<<<"lib">>>>}}
  \cup {CWorld("schemata", <<>>, Main("plain", <<"m.avdl">>), CFile(p), Args("ok", out, FALSE, "pipe") @@ [how |-> "path"]) :
     p \in {<<"absent.avdl">>, <<"old.json">>}, out \in OutDirs}
(* directories: the first files may be fine and the last not *)
DirWorlds(deep) ==
  {MWorld("schemata", <<<<"lib">>>>, <<Main(x, <<"src", "a.avdl">>), Main(y, <<"src", "b", "c.avdl">>), FIdl(<<"src", "z.avdl">>, UBare(<<>>, <<Rec("Z", 100)>>))>> \o Lib \o Around,
          <<CDir(<<"src">>)>>) @@ [cli |-> Args("ok", out, FALSE, "pipe") @@ [how |-> "path"]] :
     <<x, y>> \in ({"plain", "primitive", "empty", "undefined", "warns"} \X {"primitive", "warns", "undefined", "syntax", "missing", "latin"})
                  \ {<<"plain", "warns">>},  \* n.R and R: see SameNameWorlds
     out \in OutDirs}
(* types of the same simple name *)
SameNameWorlds(deep) ==
  {CWorld("schemata", <<>>, FIdl(<<"m.avdl">>, UProto("P", <<>>, <<Rec("a.X", 100), Rec("b.X", 200)>>)), CFile(<<"m.avdl">>),
          Args("ok", <<<<"new">>>>, FALSE, "pipe") @@ [how |-> "path"])}
(* the same again, over what was written and what became of it *)
Twice(x, how) == [x EXCEPT !.cli.again = how]
AgainWorlds(deep) ==
  {Twice(CWorld("idl", <<<<"lib">>>>, Main(x, <<"m.avdl">>), CFile(<<"m.avdl">>), Args("ok", out, FALSE, "pipe") @@ [how |-> "path"]), a) :
     x \in {"plain", "warns", "schema", "primitive", "empty"}, out \in IdlOuts \ {<<>>}, a \in {"same", "longer", "shorter", "other"}}
  \cup {Twice(CWorld("schemata", <<<<"lib">>>>, Main(x, <<"m.avdl">>), CFile(<<"m.avdl">>), Args("ok", out, FALSE, "pipe") @@ [how |-> "path"]), a) :
     x \in {"plain", "warns", "schema", "bare"}, out \in OutDirs, a \in {"same", "longer", "shorter", "other"}}
(* import directories that are relative: to the working directory, not to the importing file *)
Lib1(path, name, items) == FIdl(path, UBare(<<>>, items \o <<Rec(name, 300)>>))
ImportDirWorlds(deep) ==
  {MWorld("idl", dirs, <<FIdl(p, UProto("M", <<>>, <<DImport("idl", sp, 20), Rec("R", 100)>>))>>
          \o (IF k1 THEN <<Lib1(<<"d1", "x.avdl">>, "X1", <<DImport("idl", <<"y.avdl">>, 20)>>)>> ELSE <<FDir(<<"d1">>)>>)
          \o (IF k2 THEN <<Lib1(<<"p", "d1", "x.avdl">>, "Xp1", <<>>)>> ELSE <<FDir(<<"p", "d1">>)>>)
          \o (IF k3 THEN <<Lib1(<<"d1", "d2", "y.avdl">>, "Y12", <<>>)>> ELSE <<>>)
          \o (IF k4 THEN <<Lib1(<<"d2", "y.avdl">>, "Y2", <<>>)>> ELSE <<>>)
          \o (IF k5 THEN <<Lib1(<<"x.avdl">>, "X0", <<>>)>> ELSE <<>>), <<CFile(p)>>)
     @@ [cli |-> Args("ok", <<>>, FALSE, "pipe") @@ [how |-> "path"]] :
     dirs \in {<<<<"d1">>, <<"d2">>>>, <<<<"d2">>>>, <<<<"d1">>>>, <<<<"p", "d1">>, <<"d1", "d2">>>>, <<<<".">>, <<"d2">>>>, <<<<"p", "..", "d1">>, <<".", "d2">>>>, <<<<"d3">>>>},
     p \in {<<"p", "m.avdl">>, <<"m.avdl">>, <<"p", "q", "m.avdl">>}, sp \in {<<"x.avdl">>, <<"d1", "x.avdl">>},
     k1 \in {TRUE, FALSE}, k2 \in {TRUE, FALSE}, k3 \in {TRUE, FALSE}, k4 \in {TRUE, FALSE}, k5 \in {TRUE, FALSE}}
(* the same for schema files: of several directories, the first that has the file *)
ImportDirSchemata(deep) ==
  {MWorld("schemata", dirs, <<FIdl(<<"m.avdl">>, UProto("M", <<>>, <<DImport("idl", <<"x.avdl">>, 20), Rec("R", 100)>>)), FDir(<<"d1">>), FDir(<<"d2">>), FDir(<<"p">>)>>
          \o (IF k1 THEN <<Lib1(<<"d1", "x.avdl">>, "X1", <<DImport("idl", <<"y.avdl">>, 20)>>)>> ELSE <<>>)
          \o (IF k2 THEN <<Lib1(<<"d2", "x.avdl">>, "X2", <<>>)>> ELSE <<>>)
          \o (IF k3 THEN <<Lib1(<<"p", "x.avdl">>, "Xp", <<DImport("idl", <<"y.avdl">>, 20)>>)>> ELSE <<>>)
          \o (IF k4 THEN <<Lib1(<<"d2", "y.avdl">>, "Y2", <<>>)>> ELSE <<>>)
          \o (IF k5 THEN <<Lib1(<<"d1", "y.avdl">>, "Y1", <<>>)>> ELSE <<>>), <<c>>)
     @@ [cli |-> Args("ok", <<<<"out">>>>, FALSE, "pipe") @@ [how |-> "path"]] :
     dirs \in {<<<<"d1">>, <<"d2">>>>, <<<<"d2">>, <<"d1">>>>, <<<<"p">>, <<"d2">>, <<"d1">>>>, <<<<"nowhere">>, <<"d2">>>>, <<<<"d1">>>>}, c \in {CFile(<<"m.avdl">>)},
     k1 \in {TRUE, FALSE}, k2 \in {TRUE, FALSE}, k3 \in {TRUE, FALSE}, k4 \in {TRUE, FALSE}, k5 \in {TRUE, FALSE}}
(* arguments that are none *)
UsageWorlds(deep) ==
  {CWorld(api, <<>>, Main("plain", <<"m.avdl">>), CFile(<<"m.avdl">>), Args(a, <<<<"new.json">>>>, FALSE, "pipe") @@ [how |-> "path"]) :
     api \in {"idl", "schemata"}, a \in {"nocmd", "cmd", "option", "short", "novalue"}}
  \cup {CWorld("schemata", <<>>, Main("plain", <<"m.avdl">>), CFile(<<"m.avdl">>), Args("noinput", <<>>, FALSE, "pipe") @@ [how |-> "path"])}
=============================================================================
