-------------------------------- MODULE MC_Once --------------------------------
(* One file reached by many names: relative spellings, symbolic links to it and to     *)
(* its directory, import directories, absolute paths; cycles through such names; and   *)
(* the kinds of import.                                                                *)
EXTENDS AvdlWorlds

(* names of the file p/x.avdl (p/x.avsc, ...) for an import in p/m.avdl *)
Routes == {<<"x">>, <<".", "x">>, <<"s", "..", "x">>, <<"..", "p", "x">>, <<"l">>, <<"ld", "x">>, <<"only-in-q">>, <<"ABS">>, <<"..", "lp", "x">>}
Ext(how) == CASE how = "idl" -> ".avdl" [] how = "schema" -> ".avsc" [] OTHER -> ".avpr"
Abs(it) == [it EXCEPT !.abs = TRUE]
Import(how, n, b) ==
  IF n = <<"ABS">> THEN Abs(DImport(how, <<"p", "x" \o Ext(how)>>, b))
  ELSE DImport(how, [n EXCEPT ![Len(n)] = @ \o Ext(how)], b)
Mains == {<<>>, <<"m">>, <<".", "m">>, <<"ml">>, <<"..", "lp", "m">>}
Content(how, back) ==
  CASE how = "idl" -> FIdl(<<"p", "x.avdl">>, UProto("X", <<>>,
                        <<DRecord("X", <<>>, <<>>, 100), DMsg("f", TPrim("int", 210), <<>>, <<>>, FALSE, 200)>>
                        \o (IF back = <<>> THEN <<>> ELSE <<DImport("idl", [back EXCEPT ![Len(back)] = @ \o ".avdl"], 20)>>)
                        \o <<DRecord("X2", <<>>, <<>>, 300)>>))
  [] how = "schema" -> FJson(<<"p", "x.avsc">>, Obj(<<P("type", Str("enum")), P("name", Str("X")), P("symbols", Arr(<<Str("S")>>))>>))
  [] OTHER -> FJson(<<"p", "x.avpr">>, Obj(<<P("protocol", Str("X")), P("types", Arr(<<Obj(<<P("type", Str("fixed")), P("name", Str("X")), P("size", Int("2"))>>)>>)),
                      P("messages", Obj(<<P("f", Obj(<<P("request", Arr(<<>>)), P("response", Str("int"))>>))>>))>>))
Around(how) ==
  LET x == "x" \o Ext(how) IN
  <<FLink(<<"p", "l" \o Ext(how)>>, <<"p", x>>), FLink(<<"p", "ld">>, <<"p">>), FLink(<<"lp">>, <<"p">>), FDir(<<"p", "s">>),
    FLink(<<"q", "only-in-q" \o Ext(how)>>, <<"lp", x>>), FLink(<<"p", "ml.avdl">>, <<"p", "m.avdl">>)>>
OnceWorlds(deep) ==
  {MWorld(IF how = "idl" THEN api ELSE "idl", <<<<"q">>>>,
     <<FIdl(<<"p", "m.avdl">>, UProto("P", <<>>, <<Import(how, n1, 10), DRecord("A", <<>>, <<>>, 100), Import(how, n2, 200), DRecord("B", <<>>, <<>>, 300)>>
               \o (IF third = <<>> THEN <<>> ELSE <<Import(how, third, 400)>>))),
       Content(how, back)>> \o Around(how), <<CFile(IF via THEN <<"p", "m.avdl">> ELSE <<"lp", "ml.avdl">>), CDrain>>) :
     how \in {"idl", "schema", "protocol"}, n1 \in Routes, n2 \in Routes, third \in (IF deep THEN {<<>>, <<"l">>, <<"x">>, <<"ABS">>} ELSE {<<>>, <<"l">>}),
     back \in Mains, via \in {TRUE, FALSE}, api \in (IF deep THEN {"idl", "schemata"} ELSE {"idl"})}
(* cycles: a ring of files and a chord *)
Node(i, to, chord) ==
  FIdl(<<"n" \o ToString(i) \o ".avdl">>, UProto("N", <<>>,
    <<DImport("idl", <<"n" \o ToString(to) \o ".avdl">>, 10), DRecord("N" \o ToString(i), <<>>, <<FField(TRef("N" \o ToString(chord), 110), "f", 120)>>, 100),
      DImport("idl", <<".", "n" \o ToString(chord) \o ".avdl">>, 200)>>))
RingWorlds(deep) ==
  {MWorld("idl", <<>>, [i \in 1..4 |-> Node(i, t[i], c[i])], <<CFile(<<"n1.avdl">>), CFile(<<"n3.avdl">>)>>) :
     t \in [1..4 -> (IF deep THEN 1..4 ELSE 1..3)], c \in {<<2, 3, 4, 1>>, <<1, 1, 1, 1>>, <<4, 4, 4, 4>>, <<3, 4, 1, 2>>, <<1, 2, 3, 4>>, <<2, 1, 4, 3>>}}
=============================================================================
