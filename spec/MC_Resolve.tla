------------------------------ MODULE MC_Resolve ------------------------------
(* Which file an import means: every combination of what lies at the candidate     *)
(* places (nothing, a file, a directory, a symbolic link), of the import            *)
(* directories and their order, and of the spelling of the path; and, from a        *)
(* nested file, the lookup beside that file.                                        *)
EXTENDS AvdlWorlds

Ext(how) == CASE how = "idl" -> ".avdl" [] how = "protocol" -> ".avpr" [] OTHER -> ".avsc"
Content(path, how, name, items) ==
  CASE how = "idl" -> FIdl(path, UBare(<<>>, items \o <<DRecord(name, <<>>, <<>>, 300)>>))
  [] how = "protocol" ->
       FJson(path, Obj(<<P("protocol", Str("Q")), P("types", Arr(<<Obj(<<P("type", Str("fixed")), P("name", Str(name)),
                                                     P("size", Int("3"))>>)>>))>>))
  [] OTHER -> FJson(path, Obj(<<P("type", Str("enum")), P("name", Str(name)), P("symbols", Arr(<<Str("S")>>))>>))
(* What lies at a place: a sequence of files. *)
Lies(kind, dir, file, how, name) ==
  CASE kind = "none" -> <<>>
  [] kind = "file" -> <<Content(Append(dir, file), how, name, <<>>)>>
  [] kind = "dir" -> <<FDir(Append(dir, file))>>
  [] kind = "link" -> <<Content(<<"store", name>>, how, name, <<>>), FLink(Append(dir, file), <<"store", name>>)>>
  [] OTHER -> <<FLink(Append(dir, file), <<"store", "missing">>)>>
ImportDirs == {<<>>, <<<<"d1">>>>, <<<<"d2">>>>, <<<<"d1">>, <<"d2">>>>, <<<<"d2">>, <<"d1">>>>, <<<<"nowhere">>, <<"d2">>>>,
         <<<<"d1">>, <<"d1">>, <<"d2">>>>}
(* Directories that hold an importing file, at some depth, and unusual spellings.    *)
AboveDirs == {<<<<>>>>, <<<<"p">>>>, <<<<"d1">>, <<"p">>>>, <<<<"p">>, <<>>>>, <<<<"p", "s">>>>, <<<<"p", "..", "d1">>>>,
              <<<<"d1", "s1">>, <<"p", "s">>>>}
Main(how, path) == UProto("M", <<>>, <<DImport(how, path, 20), DRecord("R", <<>>, <<>>, 100)>>)
Kinds == {"none", "file", "dir", "link", "dangling"}

(* One import; what lies beside the main file and in two import directories. *)
FlatWorlds(deep) ==
  {MWorld("idl", dirs, <<FIdl(<<"p", "m.avdl">>, Main(how, <<"x" \o Ext(how)>>))>>
            \o Lies(k0, <<"p">>, "x" \o Ext(how), how, "Xp") \o Lies(k1, <<"d1">>, "x" \o Ext(how), how, "X1")
            \o Lies(k2, <<"d2">>, "x" \o Ext(how), how, "X2"), <<CFile(<<"p", "m.avdl">>)>>) :
     dirs \in ImportDirs \cup {<<<<"p">>>>, <<<<>>, <<"d1">>>>}, how \in {"idl", "protocol", "schema"},
     k0 \in Kinds, k1 \in Kinds \ {"dangling"}, k2 \in {"none", "file", "dir"}}
(* Spellings with several segments. *)
Spellings == {<<"s", "x.avdl">>, <<".", "x.avdl">>, <<"..", "d1", "x.avdl">>, <<"..", "x.avdl">>,
              <<"s", "..", "x.avdl">>, <<"..", "p", "x.avdl">>}
PathWorlds(deep) ==
  {MWorld("idl", dirs, <<FIdl(<<"p", "m.avdl">>, Main("idl", sp))>>
            \o Lies(k0, <<"p">>, "x.avdl", "idl", "Xp") \o Lies(k1, <<"p", "s">>, "x.avdl", "idl", "Xs")
            \o Lies(k2, <<"d1">>, "x.avdl", "idl", "X1") \o Lies(k3, <<"d1", "s">>, "x.avdl", "idl", "X1s")
            \o Lies(k4, <<>>, "x.avdl", "idl", "X0") \o <<FDir(<<"d2">>)>>, <<CFile(<<"p", "m.avdl">>)>>) :
     dirs \in ImportDirs \cup AboveDirs, sp \in Spellings, k0 \in {"none", "file"}, k1 \in {"none", "file"}, k2 \in {"none", "file"},
     k3 \in {"none", "file"}, k4 \in {"none", "file"}}
(* A file found in one place imports another: beside itself first. *)
NestedWorlds(deep) ==
  {MWorld("idl", dirs, <<FIdl(<<"p", "m.avdl">>, Main("idl", <<xd, "x.avdl">>)),
                         Content(<<"p", "s", "x.avdl">>, "idl", "Xs", <<DImport("idl", <<"y.avdl">>, 20)>>),
                         Content(<<"d1", "s1", "x.avdl">>, "idl", "X1", <<DImport("idl", <<"y.avdl">>, 20)>>)>>
            \o Lies(k0, <<"p">>, "y.avdl", "idl", "Yp") \o Lies(k1, <<"p", "s">>, "y.avdl", "idl", "Ys")
            \o Lies(k2, <<"d1">>, "y.avdl", "idl", "Y1") \o Lies(k3, <<"d1", "s1">>, "y.avdl", "idl", "Y1s")
            \o Lies(k4, <<"d2">>, "y.avdl", "idl", "Y2"), <<CFile(<<"p", "m.avdl">>)>>) :
     dirs \in ImportDirs \cup AboveDirs, xd \in {"s", "s1"}, k0 \in {"none", "file"}, k1 \in {"none", "file", "dir"}, k2 \in {"none", "file"},
     k3 \in {"none", "file"}, k4 \in {"none", "file"}}
=============================================================================
