------------------------------- MODULE MC_Forms -------------------------------
(* The three forms of a file, as main file and imported, compiled and extracted,      *)
(* with and without a namespace of its own.                                           *)
EXTENDS AvdlWorlds

NsOpt(n) == IF n = "" THEN <<>> ELSE <<n>>
UnitOf(form, n, main, items) ==
  CASE form = "protocol" -> UProto("P", IF n = "" THEN <<>> ELSE <<NsAnno(n, 1)>>, items)
  [] form = "dotted" -> UProto(IF n = "" THEN "P" ELSE n \o ".P", <<>>, items)
  [] form = "schema" -> USchema(NsOpt(n), main, items)
  [] OTHER -> UBare(NsOpt(n), items)
Mains == {TRef("M", 9), TArr(TRef("A", 10), 9), TRefQ("n.M", 9), TMap(TRef("k.A", 10), 9), TPrim("int", 9), TPrim("date", 9),
          TUni(<<TRef("A", 10), TRef("M", 11)>>, 9)}
(* main schemas that mention a type several times, by itself and within others *)
Several == {TUni(<<x[1], x[2], TPrim("null", 30)>>, 9) : x \in {TRef("n.M", 10), TArr(TRef("n.M", 11), 10), TMap(TRef("k.A", 12), 10), TRef("k.A", 10)}
                                                            \X {TRef("k.A", 20), TMap(TRef("n.M", 21), 20), TArr(TRef("n.M", 21), 20), TArr(TRef("k.A", 21), 20)}}
           \cup {TArr(TUni(<<TRef("n.M", 11), TArr(TRef("n.M", 13), 12)>>, 10), 9), TMap(TUni(<<TMap(TRef("n.M", 12), 11), TRef("n.M", 13), TRef("k.A", 14)>>, 10), 9)}
A(f2, n2, back) == FIdl(<<"a.avdl">>, UnitOf(f2, n2, TPrim("int", 9),
                          <<DRecord("A", <<>>, IF back = "" THEN <<>> ELSE <<FField(TRef(back, 110), "b", 120)>>, 100),
                            DEnum("E", <<>>, <<"S">>, 200)>>))
Items(sp, first) ==
  LET im == <<DImport("idl", <<"a.avdl">>, IF first THEN 50 ELSE 400)>>
      m == <<DRecord("M", <<>>, <<FField(TRef(sp, 210), "a", 220), FField(TRefQ("M", 230), "m", 240)>>, 200)>> IN
  IF first THEN im \o m ELSE m \o im
FormWorlds(deep) ==
  {MWorld(api, <<>>, <<FIdl(<<"m.avdl">>, UnitOf(f1, n1, main, Items(IF sp = "match" THEN n2 \o (IF n2 = "" THEN "" ELSE ".") \o "A" ELSE sp, first))), A(f2, n2, IF back # "match" THEN back ELSE IF n1 = "" THEN "M" ELSE "n.M")>>, <<CFile(<<"m.avdl">>), CDrain>>) :
     api \in {"idl", "schemata"}, f1 \in {"protocol", "dotted", "schema", "bare"}, n1 \in {"", "n"}, f2 \in {"protocol", "dotted", "schema", "bare"},
     n2 \in {"", "n", "k"}, main \in (IF deep THEN Mains ELSE {TRef("M", 9), TArr(TRef("A", 10), 9)}), sp \in (IF deep THEN {"A", "match", "n.A", "k.A"} ELSE {"A", "match"}),
     first \in {TRUE, FALSE}, back \in (IF deep THEN {"", "M", "n.M", "A"} ELSE {"", "match"})}
MainTypeWorlds(deep) ==
  {MWorld(api, <<>>, <<FIdl(<<"m.avdl">>, UnitOf(f, n1, main, IF empty THEN <<>> ELSE Items(n2 \o (IF n2 = "" THEN "" ELSE ".") \o "A", TRUE))),
            A("bare", n2, "")>>, <<CFile(<<"m.avdl">>), CDrain>>) :
     api \in {"idl", "schemata"}, f \in {"schema", "bare"}, n1 \in {"", "n", "k"}, n2 \in {"", "n", "k"}, main \in Mains, empty \in {TRUE, FALSE}}
SeveralWorlds(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UnitOf("schema", n1, main, Items("k.A", TRUE))), A(f2, "k", back)>>, <<CFile(<<"m.avdl">>), CDrain>>) :
     n1 \in {"n", "k"}, main \in Several, f2 \in {"bare", "protocol"}, back \in {"", "n.M", "A"}}
=============================================================================
