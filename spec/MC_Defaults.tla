------------------------------ MODULE MC_Defaults ------------------------------
(* Every pair of a field type and a default value from two lists that cover the     *)
(* case analysis: JSON kinds, range edges, nesting, branches of a union, named       *)
(* types declared before, in place, recursively and later.                          *)
EXTENDS AvdlWorlds

(* types use numbers from 410 to 449 *)
Prims == {TPrim(n, 410) : n \in Primitives \cup LogicalKeywords}
Opts == {[TPrim(n, 410) EXCEPT !.q = TRUE] : n \in {"int", "string", "boolean", "double", "date", "bytes", "long"}}
Dec == [k |-> "dec", p |-> [s |-> "5", id |-> 411], s |-> <<[s |-> "2", id |-> 412]>>, q |-> FALSE, annos |-> <<>>, id |-> 410]
Refs == {TRef(n, 410) : n \in {"E", "X", "S", "L", "Z", "R", "a.Far", "O", "D"}} \cup {TRefQ(n, 410) : n \in {"E", "S", "Z"}}
Comp == {TArr(TPrim("int", 411), 410), TArr(TArr(TPrim("string", 412), 411), 410), TMap(TPrim("boolean", 411), 410),
         TMap(TRef("S", 411), 410), TArr(TRefQ("E", 411), 410), TArr(TRef("Z", 411), 410),
         TUni(<<TPrim("null", 411), TPrim("int", 412)>>, 410), TUni(<<TPrim("int", 411), TPrim("null", 412)>>, 410),
         TUni(<<TPrim("string", 411), TArr(TPrim("long", 413), 412), TRef("S", 414)>>, 410),
         TUni(<<TPrim("double", 411)>>, 410), TMap(TUni(<<TRef("L", 412), TPrim("null", 413)>>, 411), 410)}
Types == Prims \cup Opts \cup {Dec} \cup Refs \cup Comp

Pairs(x) == Obj(x)
Values == {Null, Bool(TRUE), Bool(FALSE), Int("0"), Int("-1"), Int("2147483647"), Int("2147483648"), Int("-2147483648"),
           Int("-2147483649"), Int("9223372036854775807"), Int("-9223372036854775808"), Flt("1.5"), Flt("3.0"),
           Str(""), Str("s"), Str("NaN"), Str("Infinity"), Str("-Infinity"), Str("null"), Str("P"),
           Arr(<<>>), Arr(<<Int("1")>>), Arr(<<Null>>), Arr(<<Int("1"), Str("x")>>), Arr(<<Arr(<<>>), Arr(<<Str("y")>>)>>),
           Arr(<<Str("P"), Null>>), Obj(<<>>), Obj(<<P("a", Int("1"))>>), Obj(<<P("a", Str("1"))>>), Obj(<<P("a", Bool(TRUE)), P("b", Bool(FALSE))>>),
           Obj(<<P("a", Int("2")), P("b", Int("2"))>>), Obj(<<P("a", Int("2")), P("zz", Int("2"))>>),
           Obj(<<P("v", Int("1")), P("next", Null)>>),
           Obj(<<P("v", Int("1")), P("next", Obj(<<P("v", Int("2")), P("next", Null)>>))>>),
           Obj(<<P("v", Int("1")), P("next", Obj(<<P("v", Str("2")), P("next", Null)>>))>>),
           Obj(<<P("k", Obj(<<P("a", Int("1"))>>))>>), Obj(<<P("k", Obj(<<P("b", Str("x"))>>))>>), Obj(<<P("k", Null)>>),
           Obj(<<P("o", Obj(<<>>))>>), Obj(<<P("o", Obj(<<P("a", Int("3"))>>))>>)}
S == DRecord("S", <<>>, <<FField(TPrim("int", 110), "a", 111), FFieldD(TPrim("string", 120), "b", <<Str("x")>>, 121)>>, 100)
L == DRecord("L", <<>>, <<FField(TPrim("long", 210), "v", 211), FField(TUni(<<TPrim("null", 221), TRef("L", 222)>>, 220), "next", 230)>>, 200)
Items(t, v) ==
  <<DEnum("E", <<>>, <<"P", "Q">>, 10), DFixed("X", <<>>, "2", 50), S, L,
    DRecord("Far", <<NsAnno("a", 301)>>, <<FField(TPrim("boolean", 310), "a", 311)>>, 300),
    DRecord("O", <<>>, <<FField(TRef("S", 340), "o", 341)>>, 330),
    DRecord("D", <<>>, <<FFieldD(TRef("E", 360), "e", <<Str("P")>>, 361)>>, 350),
    DRecord("R", <<>>, <<FField(TPrim("int", 405), "v", 406), FFieldD(t, "f", <<v>>, 450)>>, 390),
    DRecord("Z", <<>>, <<FField(TPrim("int", 510), "a", 511)>>, 500)>>
DefaultWorlds(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", <<>>, Items(t, v)))>>, <<CFile(<<"m.avdl">>)>>) :
     t \in Types, v \in Values}
(* records whose fields may be left out, or may not, in every place *)
N == DRecord("N", <<>>, <<FField(TPrim("int", 560), "a", 561), FField([TPrim("string", 563) EXCEPT !.q = TRUE], "q", 564),
                          FField(TUni(<<TPrim("null", 567), TPrim("int", 568)>>, 566), "u", 569),
                          FFieldD(TArr(TPrim("int", 572), 571), "l", <<Arr(<<>>)>>, 573),
                          FFieldD([TPrim("long", 576) EXCEPT !.q = TRUE], "z", <<Null>>, 577)>>, 550)
HasOrNot(k, vs) == {<<>>} \cup {<<P(k, v)>> : v \in vs}
NValues == {Obj(a \o q \o u \o l \o z) : a \in HasOrNot("a", {Int("1"), Null}), q \in HasOrNot("q", {Null, Str("s"), Int("1")}), u \in HasOrNot("u", {Null, Int("1"), Str("s")}),
              l \in HasOrNot("l", {Arr(<<Int("1")>>), Null}), z \in HasOrNot("z", {Null, Int("5"), Str("s")})}
NTypes(v) == {<<TRef("N", 610), v>>, <<TArr(TRef("N", 611), 610), Arr(<<v>>)>>, <<TRefQ("N", 610), v>>, <<TMap(TUni(<<TPrim("null", 612), TRef("N", 613)>>, 611), 610), Obj(<<P("k", v)>>)>>}
LeftOutWorlds(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", <<>>, <<N, DRecord("R", <<>>, <<FFieldD(x[1], "f", <<x[2]>>, 650)>>, 600)>>))>>, <<CFile(<<"m.avdl">>)>>) :
     x \in UNION {IF deep THEN NTypes(v) ELSE {<<TRef("N", 610), v>>, <<TRefQ("N", 610), v>>} : v \in NValues}}
(* unions: a default fits when any branch admits it *)
Br(i, b) ==
  CASE i <= 7 -> TPrim(<<"null", "boolean", "int", "long", "double", "string", "bytes">>[i], b)
  [] i <= 13 -> TRef(<<"E", "X", "S", "O", "L", "Z">>[i - 7], b)
  [] i = 14 -> TArr(TPrim("int", b + 1), b)
  [] i = 15 -> TArr(TUni(<<TPrim("string", b + 2), TPrim("null", b + 3)>>, b + 1), b)
  [] i = 16 -> TMap(TPrim("boolean", b + 1), b)
  [] OTHER -> TMap(TRef("S", b + 1), b)
Group(i) == CASE i \in {14, 15} -> 14 [] i \in {16, 17} -> 16 [] OTHER -> i
TwoBranches(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", <<>>, Items(TUni(<<Br(x[1], 411), Br(x[2], 421)>>, 410), v)))>>, <<CFile(<<"m.avdl">>)>>) :
     x \in {y \in (1..17) \X (1..17) : Group(y[1]) # Group(y[2])}, v \in Values}
(* values within values, of which the second decides *)
Two(c, x, y) == IF c = "array" THEN Arr(<<x, y>>) ELSE Obj(<<P("a", x), P("b", y)>>)
OneOf(c, v) == IF c = "array" THEN Arr(<<v>>) ELSE Obj(<<P("k", v)>>)
NoneOf(c) == IF c = "array" THEN Arr(<<>>) ELSE Obj(<<>>)
Cont(c, t, b) == IF c = "array" THEN TArr(t, b) ELSE TMap(t, b)
Inner == {TRef(n, 413) : n \in {"E", "X", "S", "O", "L", "Z", "D"}} \cup {TRefQ("S", 413), TUni(<<TPrim("null", 414), TRef("O", 415)>>, 413), TPrim("int", 413)}
InnerValues == {Null, Int("1"), Str("P"), Obj(<<>>), Obj(<<P("a", Int("1"))>>), Obj(<<P("a", Str("1"))>>), Obj(<<P("o", Obj(<<P("a", Int("3"))>>))>>),
                Obj(<<P("o", Obj(<<P("a", Null)>>))>>), Obj(<<P("v", Int("1")), P("next", Obj(<<P("v", Null), P("next", Null)>>))>>)}
Holder(c, t) == DRecord("H", <<>>, <<FField([Cont(c, t, 411) EXCEPT !.id = 370], "l", 371)>>, 369)
SecondWorlds(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", <<>>, Items(Cont(c1, Cont(c2, t, 411), 410),
        IF first THEN Two(c1, OneOf(c2, v), NoneOf(c2)) ELSE Two(c1, NoneOf(c2), OneOf(c2, v)))))>>, <<CFile(<<"m.avdl">>)>>) :
     c1 \in {"array", "map"}, c2 \in {"array", "map"}, t \in Inner, v \in InnerValues, first \in {TRUE, FALSE}}
  \cup {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", <<>>, <<Holder(c2, t)>> \o Items(Cont(c1, TRef("H", 411), 410),
        IF first THEN Two(c1, Obj(<<P("l", OneOf(c2, v))>>), Obj(<<P("l", NoneOf(c2))>>)) ELSE Two(c1, Obj(<<P("l", NoneOf(c2))>>), Obj(<<P("l", OneOf(c2, v))>>)))))>>,
        <<CFile(<<"m.avdl">>)>>) :
     c1 \in {"array", "map"}, c2 \in {"array", "map"}, t \in Inner, v \in InnerValues, first \in {TRUE, FALSE}}
(* defaults of parameters *)
ParamWorlds(deep) ==
  {MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", <<>>, SubSeq(Items(TPrim("int", 410), Int("1")), 1, 7) \o
      <<DMsg("m", TVoid(405), <<[doc |-> <<>>, type |-> t, vars |-> <<FVar("p", <<v>>, 450)>>]>>, <<>>, FALSE, 400)>>))>>,
      <<CFile(<<"m.avdl">>)>>) :
     t \in Types, v \in Values}
=============================================================================
