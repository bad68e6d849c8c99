------------------------------- MODULE MC_Names -------------------------------
(* Every way of naming two types and of mentioning one of them: namespace of the    *)
(* protocol or file, dotted identifiers, @namespace, and the spelling of a mention  *)
(* in every position.                                                               *)
EXTENDS AvdlWorlds

Heads == {[k |-> "p", id |-> "P", ns |-> <<>>], [k |-> "p", id |-> "P", ns |-> <<"a">>],
          [k |-> "p", id |-> "P", ns |-> <<"">>], [k |-> "p", id |-> "a.b.P", ns |-> <<>>],
          [k |-> "p", id |-> "a.P", ns |-> <<"b">>],
          [k |-> "b", id |-> "", ns |-> <<>>], [k |-> "b", id |-> "", ns |-> <<"a">>]}
Idents(s) == {s, "a." \o s, "a.b." \o s}
NsAnnos == {<<>>, <<"">>, <<"a">>, <<"b">>}
Spelled == {"X", "Y", "a.X", "b.Y", "a.b.Y"}
Poss(deep) == IF deep THEN {"plain", "opt", "arr", "map", "uni", "deep"} ELSE {"plain", "deep"}

Ann(ns, b) == IF ns = <<>> THEN <<>> ELSE <<NsAnno(ns[1], b)>>
(* X mentions something; Y follows, mentioning X's simple name. *)
Items(xi, xn, yi, yn, sp, pos, back) ==
  <<DRecord(xi, Ann(xn, 101), <<FField(Mention(sp, pos, 110), "f", 120)>>, 100),
    DRecord(yi, Ann(yn, 201), IF back THEN <<FField(Mention("X", "arr", 210), "g", 220)>> ELSE <<>>, 200)>>
Unit(h, items) == IF h.k = "p" THEN UProto(h.id, Ann(h.ns, 1), items) ELSE UBare(h.ns, items)
NameWorlds(deep) ==
  {MWorld(IF h.k = "p" THEN "idl" ELSE "schemata", <<>>,
          <<FIdl(<<"m.avdl">>, Unit(h, Items(xi, xn, yi, yn, sp, pos, back)))>>, <<CFile(<<"m.avdl">>)>>) :
     h \in Heads, xi \in Idents("X"), xn \in (IF deep THEN NsAnnos ELSE {<<>>, <<"">>, <<"b">>}),
     yi \in (IF deep THEN Idents("Y") ELSE {"Y", "a.b.Y"}),
     yn \in (IF deep THEN NsAnnos ELSE {<<>>, <<"b">>}), sp \in Spelled, pos \in Poss(deep), back \in {TRUE, FALSE}}
(* types whose names are words of the schema language *)
TypeWords == {"record", "enum", "array", "map", "union", "fixed", "error", "protocol", "decimal", "throws", "type", "name"}
WordItems(x, y, xn, sp, pos) ==
  <<DRecord(x, Ann(xn, 101), <<FField(Mention(sp, pos, 110), "f", 120)>>, 100),
    DEnum(y, <<>>, <<"S">>, 200), DRecord("Z", <<>>, <<FField(Mention(x, pos, 310), "g", 320), FField(Mention(y, pos, 330), "h", 340)>>, 300)>>
WordWorlds(deep) ==
  {MWorld(IF h.k = "p" THEN "idl" ELSE "schemata", <<>>,
          <<FIdl(<<"m.avdl">>, Unit(h, WordItems(x, y, xn, sp, pos)))>>, <<CFile(<<"m.avdl">>)>>) :
     h \in (IF deep THEN Heads ELSE {z \in Heads : z.ns # <<"">>}), x \in TypeWords, y \in {"Y", "a.map", "enum"}, xn \in {<<>>, <<"a">>}, sp \in {"Y", "enum", "a.map"},
     pos \in {"plain", "deep"}}
==============================================================================
