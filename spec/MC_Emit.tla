-------------------------------- MODULE MC_Emit --------------------------------
(* Where each type is defined: every way three types mention one another, seen      *)
(* through a protocol, a schema line, a message and schema extraction.              *)
EXTENDS AvdlWorlds

Names3 == {"A", "B", "C"}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Fields(ms, pos, b) == TLCEval([i \in 1..Len(ms) |->
                        FField(Mention(ms[i], pos, b + 10 * i), IF i = 1 THEN "f" ELSE "g", b + 10 * i + 9)])
(* C is a record, an enum or a fixed *)
Third(kc, mc, pos) == CASE kc = "record" -> DRecord("C", <<>>, Fields(mc, pos, 300), 300)
                      [] kc = "enum" -> DEnum("C", <<>>, <<"S">>, 300)
                      [] OTHER -> DFixed("C", <<>>, "4", 300)
Items(ma, mb, mc, kc, pos, order) ==
  LET a == DRecord("A", <<>>, Fields(ma, pos, 100), 100)
      b == DRecord("B", <<>>, Fields(mb, pos, 200), 200)
      c == Third(kc, mc, pos) IN
  IF order = "abc" THEN <<a, b, c>> ELSE <<c, a, b>>
Param(t, n, b) == [doc |-> <<>>, type |-> t, vars |-> <<FVar(n, <<>>, b)>>]
Forms == {"proto", "proto-msg", "schema", "schemata"}
UnitFor(form, items) ==
  CASE form = "proto" -> UProto("P", <<>>, items)
  [] form = "proto-msg" ->
       UProto("P", <<NsAnno("n", 1)>>,
              items \o <<DMsg("m", TRef("B", 910), <<Param(TArr(TRef("A", 921), 920), "x", 930)>>,
                              <<[n |-> "A", id |-> 940]>>, FALSE, 900)>>)
  [] form = "schema" -> USchema(<<"n">>, TMap(TUni(<<TRef("C", 9), TRef("A", 10)>>, 8), 7), items)
  [] OTHER -> UBare(<<>>, items)
EmitWorlds(deep) ==
  {MWorld(IF form = "schemata" THEN "schemata" ELSE "idl", <<>>,
          <<FIdl(<<"m.avdl">>, UnitFor(form, Items(ma, mb, mc, kc, pos, order)))>>, <<CFile(<<"m.avdl">>)>>) :
     form \in Forms, ma \in Seqs(Names3, 2), mb \in Seqs(Names3, IF deep THEN 2 ELSE 1), mc \in Seqs(Names3, IF deep THEN 2 ELSE 1),
     kc \in {"record", "enum", "fixed"}, pos \in (IF deep THEN {"plain", "opt", "deep"} ELSE {"deep"}), order \in {"abc", "cab"}}
=============================================================================
