------------------------------- MODULE MC_Alias -------------------------------
(* Aliases of types in every relation of their namespace to the type's: the same,     *)
(* above, below, beside, none; on fields; in IDL and in JSON.                          *)
EXTENDS AvdlWorlds

An(n, v, b) == [n |-> n, v |-> v, id |-> b]
TypeNs == {"", "a", "a.b", "ab"}
Aliases == {"X", "a.X", "a.b.X", "a.b.c.X", "ab.X", "b.X", "c.a.X"}
AliasLists(deep) == {<<x>> : x \in Aliases} \cup {<<x, y>> : x \in Aliases, y \in (IF deep THEN Aliases ELSE {"a.X", "a.b.c.X"})} \cup {<<>>}
Al(xs, b) == <<An("aliases", Arr(TLCEval([i \in 1..Len(xs) |-> Str(xs[i])])), b)>>
Decl(kind, annos) == CASE kind = "record" -> DRecord("T", annos, <<FField([TPrim("int", 112) EXCEPT !.annos = <<>>], "f", 115)>>, 100)
                     [] kind = "enum" -> DEnum("T", annos, <<"S">>, 100)
                     [] kind = "fixed" -> DFixed("T", annos, "2", 100)
                     [] OTHER -> [DRecord("T", annos, <<>>, 100) EXCEPT !.k = "error"]
User(full) == DRecord("User", <<>>, <<FField(TRef(full, 210), "t", 215)>>, 200)
Full(ns) == IF ns = "" THEN "T" ELSE ns \o ".T"
(* within: the protocol's namespace; the type's own comes from it or an annotation *)
AliasWorlds(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", IF within = "" THEN <<>> ELSE <<NsAnno(within, 1)>>,
        LET d == Decl(kind, Al(xs, 90) \o (IF ns = "inherit" THEN <<>> ELSE <<NsAnno(ns, 91)>>))
            u == User(Full(IF ns = "inherit" THEN within ELSE ns)) IN
        IF first THEN <<d, u>> ELSE <<u, d>>))>>, <<CFile(<<"m.avdl">>)>>) :
     within \in {"", "a", "a.b"}, ns \in {"inherit", "a", "a.b", "ab"}, kind \in (IF deep THEN {"record", "enum", "fixed", "error"} ELSE {"record", "fixed"}), xs \in AliasLists(deep),
     first \in (IF deep THEN {TRUE, FALSE} ELSE {FALSE})}
(* in JSON, nested in a record of some namespace, or by itself *)
JT(ns, xs) == Obj(<<P("type", Str("enum")), P("name", Str("T"))>> \o (IF ns = "inherit" THEN <<>> ELSE <<P("namespace", Str(ns))>>)
                  \o <<P("symbols", Arr(<<Str("S")>>)), P("aliases", Arr(TLCEval([i \in 1..Len(xs) |-> Str(xs[i])])))>>)
JsonAliasWorlds(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", IF within = "" THEN <<>> ELSE <<NsAnno(within, 1)>>, <<DImport("schema", <<"j.avsc">>, 10)>>)),
      FJson(<<"j.avsc">>, IF outer = "alone" THEN JT(ns, xs)
                          ELSE Obj(<<P("type", Str("record")), P("name", Str("O")), P("namespace", Str(outer)),
                                     P("fields", Arr(<<Obj(<<P("name", Str("f")), P("type", JT(ns, xs)), P("aliases", Arr(<<Str("old")>>))>>)>>))>>))>>,
      <<CFile(<<"m.avdl">>)>>) :
     within \in {"", "a"}, outer \in {"alone", "a", "a.b"}, ns \in {"inherit", "a", "a.b", "ab"}, xs \in AliasLists(deep)}
=============================================================================
