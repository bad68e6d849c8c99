------------------------------ MODULE MC_Structure ------------------------------
(* The structural rules of Avro, each over every combination of a small alphabet:   *)
(* members of unions, names, symbols, fields, parameters, sizes, precisions,         *)
(* one-way messages.                                                                 *)
EXTENDS AvdlWorlds

Proto(items) == MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", <<NsAnno("n", 1)>>, items))>>, <<CFile(<<"m.avdl">>)>>)
Dec(p, s, b) == [k |-> "dec", p |-> [s |-> p, id |-> b + 1], s |-> IF s = "" THEN <<>> ELSE <<[s |-> s, id |-> b + 2]>>,
                 q |-> FALSE, annos |-> <<>>, id |-> b]
Base == <<DRecord("A", <<>>, <<>>, 700), DEnum("B", <<>>, <<"S">>, 800), DFixed("C", <<NsAnno("q", 901)>>, "3", 900)>>

(* ---- unions ---- *)
MemberKinds == {"int", "long", "string", "null", "bytes", "date", "time_ms", "uuid", "timestamp_ms", "decimal", "array", "array2",
                "map", "A", "n.A", "B", "q.C", "q.A", "int?", "A?", "union"}
Member(k, b) ==
  CASE k \in Primitives \cup LogicalKeywords -> TPrim(k, b)
  [] k = "decimal" -> Dec("5", "2", b)
  [] k = "array" -> TArr(TPrim("int", b + 1), b)
  [] k = "array2" -> TArr(TPrim("string", b + 1), b)
  [] k = "map" -> TMap(TPrim("int", b + 1), b)
  [] k = "int?" -> [TPrim("int", b) EXCEPT !.q = TRUE]
  [] k = "A?" -> TRefQ("A", b)
  [] k = "union" -> TUni(<<TPrim("boolean", b + 1)>>, b)
  [] OTHER -> TRef(k, b)
UniOf(ks, b) == TUni(TLCEval([i \in 1..Len(ks) |-> Member(ks[i], b + 5 * i)]), b)
UnionWorlds(deep) ==
  {Proto(<<DRecord("R", <<>>, <<FField(UniOf(ks, 110), "f", 190)>>, 100)>> \o Base \o
         <<DRecord("A", <<NsAnno("q", 951)>>, <<>>, 950)>>) :
     ks \in {<<a>> : a \in MemberKinds} \cup {<<a, b>> : a \in MemberKinds, b \in MemberKinds}
            \cup {<<a, b, c>> : a \in {"null", "int", "A", "string"},
                                b \in {"int", "date", "n.A", "array", "uuid"},
                                c \in (IF deep THEN MemberKinds ELSE {"int", "time_ms", "A", "q.A", "array2", "string", "null", "union", "int?"})}}
(* the same in other places: items of an array, a result, a parameter, a schema line *)
UnionPlaceWorlds(deep) ==
  {Proto(Base \o <<DRecord("A", <<NsAnno("q", 951)>>, <<FField(TArr(UniOf(ks, 960), 955), "f", 980)>>, 950)>>) :
     ks \in {<<a, b>> : a \in MemberKinds, b \in MemberKinds \ (IF deep THEN {} ELSE {"time_ms", "map", "long"})}}
  \cup {Proto(Base \o <<DMsg("m", UniOf(ks, 960), <<[doc |-> <<>>, type |-> TMap(UniOf(<<ks[2], ks[1]>>, 975), 974), vars |-> <<FVar("p", <<>>, 990)>>]>>,
                        <<>>, FALSE, 950)>>) :
        ks \in {<<a, b>> : a \in {"null", "int", "A", "string"}, b \in {"date", "uuid", "n.A", "A", "B", "int", "union", "A?", "null"}}}

(* ---- names ---- *)
NamePool == {"Ok", "int", "date", "uuid", "time_ms", "timestamp_ms", "local_timestamp_ms", "decimal", "null", "string",
             "record", "enum", "map", "union", "x-y", "a.int", "a.b.Ok", "int.Ok", "a-b.Ok", "import", "void", "boolean", "bytes",
             "error", "fixed", "array", "_", "R2D2", "protocol", "a.date", "long", "float", "double"}
NameRuleWorlds(deep) ==
  {Proto(<<CASE k = "record" -> DRecord(n, <<>>, <<>>, 100)
           [] k = "error" -> [DRecord(n, <<>>, <<>>, 100) EXCEPT !.k = "error"]
           [] k = "enum" -> DEnum(n, <<>>, <<"S">>, 100)
           [] OTHER -> DFixed(n, <<>>, "3", 100)>>) : k \in {"record", "error", "enum", "fixed"}, n \in NamePool}
  \cup {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto(n, <<>>, <<DRecord("A", <<>>, <<>>, 100)>>))>>, <<CFile(<<"m.avdl">>)>>) :
          n \in NamePool}
  \cup {Proto(<<DRecord("A", <<NsAnno(n, 101)>>, <<>>, 102)>>) : n \in {"ok", "int", "a.b", "a..b", ".a", "a.", "1a", "a-b", "", "a b", "A.1"}}
  \cup {Proto(<<DRecord("A", <<>>, <<FField(TPrim("int", 110), f, 120)>>, 100),
                DEnum("E", <<>>, <<f>>, 200), DMsg(f, TVoid(310), <<>>, <<>>, FALSE, 300)>>) :
          f \in {"int", "record", "date", "null", "_x", "namespace", "oneway", "throws", "idl", "order"}}

(* ---- enums ---- *)
SymSeqs(n) == UNION {[1..k -> {"A", "B", "C"}] : k \in 1..n}
WithDefault(e, d) == IF d = "" THEN e ELSE [e EXCEPT !.dflt = <<[s |-> d, id |-> 150]>>]
EnumWorlds(deep) ==
  {Proto(<<WithDefault(DEnum("E", <<>>, ss, 100), d)>>) : ss \in SymSeqs(IF deep THEN 4 ELSE 3), d \in {"", "A", "B", "a", "Z"}}

(* ---- fields and parameters ---- *)
VarsFor(ns, b) == TLCEval([i \in 1..Len(ns) |-> FVar(ns[i], <<>>, b + 2 * i)])
FieldWorlds(deep) ==
  {Proto(<<DRecord("R", <<>>, <<[doc |-> <<>>, type |-> TPrim("int", 110), vars |-> VarsFor(v1, 110)],
                                [doc |-> <<>>, type |-> TPrim("long", 130), vars |-> VarsFor(v2, 130)]>>, 100)>>) :
     v1 \in UNION {[1..k -> {"f", "g", "F"}] : k \in 1..2}, v2 \in UNION {[1..k -> {"f", "g", "h"}] : k \in 1..2}}
  \cup {Proto(<<DMsg("m", TVoid(110), TLCEval([i \in 1..Len(ps) |-> [doc |-> <<>>, type |-> TPrim("int", 110 + 10 * i),
                                                               vars |-> <<FVar(ps[i], <<>>, 115 + 10 * i)>>]]), <<>>, FALSE, 100),
                DMsg("k", TVoid(210), <<[doc |-> <<>>, type |-> TPrim("int", 220), vars |-> <<FVar("p", <<>>, 225)>>]>>, <<>>, FALSE, 200)>>) :
        ps \in UNION {[1..k -> {"p", "q", "r"}] : k \in 1..3}}

(* ---- numbers ---- *)
Numerals == {"0", "1", "5", "38", "2147483647", "2147483648", "4294967295", "4294967296", "-1", "9223372036854775808",
             "18446744073709551616", "99999999999999999999"}
NumberWorlds(deep) ==
  {Proto(<<DRecord("R", <<>>, <<FField(Dec(p, s, 110), "f", 120)>>, 100)>>) : p \in Numerals, s \in Numerals \cup {""}}
  \cup {Proto(<<DRecord("R", <<>>, <<FField([Dec(p, s, 110) EXCEPT !.q = TRUE], "f", 120)>>, 100)>>) : p \in {"0", "3"}, s \in {"", "3", "4"}}
  \cup {Proto(<<DFixed("F", <<>>, n, 100)>>) : n \in Numerals}

(* ---- messages ---- *)
OneWayWorlds(deep) ==
  {Proto(Base \o <<DMsg("m", r, IF p THEN <<[doc |-> <<>>, type |-> TPrim("int", 980), vars |-> <<FVar("p", <<>>, 985)>>]>> ELSE <<>>,
                        IF ow THEN <<>> ELSE th, ow, 950)>>) :
     r \in {TVoid(960), TPrim("null", 960), TPrim("int", 960), TRef("A", 960), TUni(<<TPrim("null", 961)>>, 960),
            TArr(TPrim("null", 961), 960), [TPrim("int", 960) EXCEPT !.q = TRUE]},
     p \in {TRUE, FALSE}, ow \in {TRUE, FALSE}, th \in {<<>>, <<[n |-> "A", id |-> 990]>>, <<[n |-> "A", id |-> 990], [n |-> "q.C", id |-> 991]>>}}
  \cup {Proto(<<DRecord("R", <<>>, <<FField([TPrim(n, 110) EXCEPT !.q = TRUE], "f", 120)>>, 100)>>) : n \in Primitives \cup LogicalKeywords}
=============================================================================
