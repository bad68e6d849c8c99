-------------------------------- MODULE MC_Dirs --------------------------------
(* Extraction from directories: which files count and in which order, each compiled   *)
(* on its own, and what happens when one of them fails.                               *)
EXTENDS AvdlWorlds

Rec(n, items) == items \o <<DRecord(n, <<>>, <<FField(TPrim("int", 110), "f", 120)>>, 100)>>
Orph(text, b) == [k |-> "orphan", id |-> b, text |-> text]
File(path, kind, n) ==
  CASE kind = "rec" -> <<FIdl(path, UProto("P", <<>>, Rec(n, <<>>)))>>
  [] kind = "same" -> <<FIdl(path, UBare(<<>>, Rec("Same", <<Orph("stray", 20)>>)))>>
  [] kind = "imp" -> <<FIdl(path, UBare(<<"k">>, Rec(n, <<DImport("idl", <<"lib.inc">>, 10)>>)))>>
  [] kind = "bad" -> <<[FBad(path) EXCEPT !.text = "protocol P {"]>>
  [] kind = "undef" -> <<FIdl(path, UProto("P", <<>>, <<DRecord(n, <<>>, <<FField(TRef("Nope", 110), "f", 120)>>, 100), Orph("kept", 300)>>))>>
  [] kind = "dir" -> <<FDir(path)>>
  [] kind = "link" -> <<FIdl(<<"store", n>>, UProto("P", <<>>, Rec(n, <<>>))), FLink(path, <<"store", n>>)>>
  [] kind = "dirlink" -> <<FIdl(<<"far", "x.avdl">>, UProto("P", <<>>, Rec("Far", <<>>))), FLink(path, <<"far">>)>>
  [] OTHER -> <<>>
Lib(dir) == FIdl(Append(dir, "lib.inc"), UBare(<<>>, Rec("Lib", <<>>)))
DirWorlds(deep) ==
  {MWorld("schemata", <<<<"q">>>>,
          File(<<"d", "a.avdl">>, k1, "A1") \o File(<<"d", "a", "c.avdl">>, k2, "A2") \o File(<<"d", "b.avdl">>, k3, "A3")
          \o File(<<"d", nm>>, k4, "A4") \o File(<<"d", "a", "z", "z.avdl">>, k5, "A5") \o <<Lib(<<"d">>), Lib(<<"q">>)>>,
          <<CDir(<<"d">>), CDrain>> \o (IF again THEN <<CDir(<<"d", "a">>), CDrain>> ELSE <<>>)) :
     k1 \in {"none", "rec", "imp", "bad", "dir"}, k2 \in {"none", "same", "imp"}, k3 \in {"none", "same", "undef", "link"},
     k4 \in {"none", "rec", "dirlink"}, nm \in {"B.avdl", "a.avdl.txt", "zz.AVDL", "a-1.avdl", ".h.avdl"},
     k5 \in (IF deep THEN {"none", "rec", "same"} ELSE {"none", "rec"}), again \in (IF deep THEN {TRUE, FALSE} ELSE {FALSE})}
(* names that look like something else *)
OddNames == {".gen", "a b", "x.avdl", "_t", "target", "a.b", "#c", "~", "test", "-", "A", "..."}
OddFiles == {"a.avdl", ".avdl", ".h.avdl", "a b.avdl", "a.b.avdl", "a.avdl~", "a.Avdl", "avdl", "a.avdl.avdl", "_.avdl", "#a.avdl", "0.avdl", "a.avdl.bak", "-a.avdl", "a.avsc", "a..avdl"}
OddWorlds(deep) ==
  {MWorld("schemata", <<>>, File(<<"d", dn, fn>>, "rec", "A1") \o File(<<"d", dn, "sub", gn>>, "rec", "A2") \o File(<<"d", gn>>, "rec", "A3") \o File(<<"d", "m.avdl">>, "same", "A4"),
          <<CDir(<<"d">>), CDrain>>) : dn \in OddNames, fn \in OddFiles, gn \in OddFiles}
(* deep below *)
DeepWorlds(deep) ==
  {MWorld("schemata", <<>>, File(<<"d">> \o dn \o <<"z.avdl">>, "rec", "A1") \o File(<<"d", "a", "b", "k.avdl">>, "rec", "A2") \o File(<<"d", "b.avdl">>, "rec", "A3"),
          <<CDir(cd), CDrain>>) :
     dn \in {<<"a">>, <<"a", "b">>, <<"a", "b", "c">>, <<"a", "b", "c", "d", "e", "f", "g", "h">>, <<"b.avdl.d">>, <<"b.avd", "a">>, <<"b-", ".c">>},
     cd \in {<<"d">>, <<"d", ".">>, <<"d", "a">>, <<"d", "a", "..">>, <<"d", "a", "b">>, <<".">>}}
=============================================================================
