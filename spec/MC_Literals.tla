------------------------------ MODULE MC_Literals ------------------------------
(* Integer, floating-point and string literals of every short form, as defaults, in   *)
(* annotations, as sizes and precisions, in import paths.                              *)
EXTENDS AvdlWorlds, AvdlLiterals

An(n, v, b) == [n |-> n, v |-> v, id |-> b]
(* a record with a field of type t for every value, and an annotation holding them *)
Fields(t, vs) == TLCEval([i \in 1..Len(vs) |-> FFieldD(TPrim(t, 1000 + 10 * i), "f" \o ToString(i), <<vs[i]>>, 1002 + 10 * i)])
Rec(t, vs) == DRecord("R", <<An("x", Obj(<<P("k", Arr(vs))>>), 101), An("y", vs[1], 102)>>, Fields(t, vs), 103)
W1(items) == MWorld("idl", <<>>, <<FIdl(<<"m.avdl">>, UProto("P", <<>>, items))>>, <<CFile(<<"m.avdl">>)>>)
Good(t, vs) == W1(<<Rec(t, vs)>>)

(* ---- integers ---- *)
Decs == <<"0", "1", "9", "10", "255", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993",
          "999999999999999999", "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615",
          "18446744073709551616", "92233720368547758070", "340282366920938463463374607431768211456">>
Hexs == <<"0x0", "0X1", "0xf", "0XA0", "0xfF", "0x7fffffff", "0x80000000", "0xffffffff", "0x100000000", "0x00000000000000001", "0x7fffffffffffffff",
          "0x8000000000000000", "0x8000000000000001", "0xFFFFFFFFFFFFFFFF", "0x10000000000000000", "0xFFFFFFFFFFFFFFFFFF", "0xcafeBABE", "0x00000000000000000000F">>
Octs == <<"00", "01", "007", "010", "0777", "017777777777", "020000000000", "0777777777777777777777", "01000000000000000000000", "01000000000000000000001",
          "01777777777777777777777", "02000000000000000000000", "0000000000000000000000000017">>
IntTexts == Decs \o Hexs \o Octs
Spelled(sign, i, suffix) == sign \o IntTexts[i] \o suffix
IntSpellings == [sign : {"", "-"}, i : 1..Len(IntTexts), suffix : {"", "l", "L"}]
IntWorlds(deep) == {Good("long", <<IntLit(Spelled(x.sign, x.i, x.suffix))>>) : x \in IntSpellings}
NestedIntWorlds(deep) ==
  {W1(<<IF at = "annotation" THEN DRecord("R", <<An("x", v, 101)>>, <<>>, 103)
        ELSE IF at = "array" THEN DRecord("R", <<>>, <<FFieldD(TArr(TPrim("long", 111), 110), "f", <<Arr(<<Int("1"), v>>)>>, 120)>>, 103)
        ELSE IF at = "double" THEN DRecord("R", <<>>, <<FFieldD(TPrim("double", 110), "f", <<v>>, 120)>>, 103)
        ELSE IF at = "int" THEN DRecord("R", <<>>, <<FFieldD(TPrim("int", 110), "f", <<v>>, 120)>>, 103)
        ELSE IF at = "param" THEN DMsg("m", TVoid(102), <<[doc |-> <<>>, type |-> TPrim("long", 110), vars |-> <<FVar("a", <<v>>, 120)>>]>>, <<>>, FALSE, 100)
        ELSE DRecord("R", <<>>, <<FField([TPrim("string", 110) EXCEPT !.annos = <<An("q", Obj(<<P("k", v)>>), 105)>>], "f", 120)>>, 103)>>) :
     at \in {"annotation", "array", "double", "int", "param", "type"}, v \in {IntLit(Spelled(s, i, "")) : s \in {"", "-"}, i \in 1..Len(IntTexts)}}
Num(lit, b) == [s |-> IntOf(lit), raw |-> lit, id |-> b]
SizeTexts == <<"0", "1", "007", "010", "0x10", "0XfF", "4294967295", "0xffffffff", "037777777777", "4294967296", "0x100000000", "040000000000", "-1", "-0x1", "-01">>
SizeWorlds(deep) ==
  {W1(<<[DFixed("F", <<>>, "1", 100) EXCEPT !.size = Num(SizeTexts[i], 107)]>>) : i \in 1..Len(SizeTexts)}
DecWorlds(deep) ==
  {W1(<<DRecord("R", <<>>, <<FField([k |-> "dec", p |-> Num(p, 121), s |-> IF s = "" THEN <<>> ELSE <<Num(s, 122)>>, q |-> FALSE, annos |-> <<>>, id |-> 120], "d", 125)>>, 100)>>) :
     p \in {"1", "010", "0x10", "0XfF", "0xffffffff", "4294967295", "037777777777", "4294967296", "0x0", "00", "-1", "9"},
     s \in {"", "0", "00", "0x0", "1", "010", "8", "0x8", "0x9", "011", "4294967295", "4294967296", "-1", "0x10"}}

(* ---- floats ---- *)
Whole == <<"0", "1", "08", "25", "123456789012345678", "9007199254740993", "0000", "179769313486231570000000000000000000000000000000000000000">>
Fracs == <<"", ".", ".0", ".5", ".1", ".30000000000000004", ".000000000000000000000000000001">>
DExps == <<"", "e0", "E5", "e+10", "E-7", "e-300", "e22", "e-323">>
DecFloat(h, f, e) == h \o f \o e
(* a floating-point literal has a point, an exponent or a suffix *)
FloatTexts(deep) == {DecFloat(Whole[h], Fracs[f], DExps[e]) \o s : h \in 1..Len(Whole), f \in 1..Len(Fracs), e \in 1..Len(DExps),
                                            s \in IF deep THEN {"", "f", "F", "d", "D"} ELSE {"", "d"}}
IsFloatText(s) == IdxOf(s, {".", "e", "E", "f", "F", "d", "D"}) # 0
Pointed == {DecFloat("", Fracs[f], DExps[e]) : f \in 3..Len(Fracs), e \in 1..Len(DExps)}
Chunks(S, n) == LET q == SetToSeq(S) IN {SubSeq(q, 1 + n * k, IF n * (k + 1) > Len(q) THEN Len(q) ELSE n * (k + 1)) : k \in 0..((Len(q) - 1) \div n)}
FloatWorlds(deep) ==
  {Good("double", TLCEval([i \in 1..Len(c) |-> FltLit(sign \o c[i])])) :
     sign \in {"", "-", "+"}, c \in Chunks({s \in FloatTexts(deep) : IsFloatText(s)}, 15)}
FloatEnds == {"f", "F", "d", "D"}
SuffixWorlds(deep) ==
  {Good("double", TLCEval([i \in 1..4 |-> FltLit(sign \o h \o f \o e \o SetToSeq(FloatEnds)[i])])) :
     sign \in {"", "-"}, h \in {"0", "1", "08", "16777217", "123456789012345678"}, f \in {"", ".", ".1", ".30000000000000004", ".5"}, e \in {"", "e0", "E-7", "e22", "e+39", "e200"}}
  \cup {Good("double", TLCEval([i \in 1..4 |-> FltLit(sign \o h \o f \o e \o SetToSeq(FloatEnds)[i])])) :
     sign \in {"", "-"}, h \in {"0x1", "0X3ffffff", "0x123456789abcdef1"}, f \in {"", ".", ".1", ".fffffffffffff8"}, e \in {"p0", "P-7", "p+130"}}
PointedWorlds(deep) == {Good("double", TLCEval([i \in 1..Len(c) |-> FltLit(sign \o c[i])])) : sign \in {"", "-", "+"}, c \in Chunks(Pointed, 15)}
SpecialWorlds(deep) == {Good("double", <<FltLit(s \o x), FltLit(x)>>) : s \in {"", "-", "+"}, x \in {"NaN", "Infinity"}}
HexWhole == <<"0", "1", "a", "1F", "dEaD", "1fffffffffffff", "3fffffffffffff", "20000000000001", "123456789abcdef1", "123456789abcdef12345">>
HexFracs == <<"", ".", ".0", ".8", ".1", ".fffffffffffff8", ".00000000000008">>
HexTexts(deep) == {p \o HexWhole[h] \o HexFracs[f] \o e \o s : p \in {"0x", "0X"}, h \in 1..Len(HexWhole), f \in 1..Len(HexFracs),
               e \in {"p0", "P3", "p+10", "p-1", "P-60"}, s \in IF deep THEN {"", "f", "D"} ELSE {""}}
HexPointed == {"0x" \o HexFracs[f] \o e : f \in 3..Len(HexFracs), e \in {"p0", "p4", "P-3"}}
HexEdges == {"0x1p1023", "0x1.fffffffffffffp1023", "0x1p-1022", "0x1p-1030", "0x0.0000000000001p-1022", "0x1000p-1080", "0x3p-1075", "0x1p-1074", "0x1.8p-1074", "0x1p-1075",
             "0x1.0000000000000001p-1075", "0x1p-1076", "0x.0000000000000001p1040", "0xffffffffffffffffffffp900"}
HexFloatWorlds(deep) ==
  {Good("double", TLCEval([i \in 1..Len(c) |-> FltLit(sign \o c[i])])) : sign \in IF deep THEN {"", "-", "+"} ELSE {"-"}, c \in Chunks(HexTexts(deep), 15)}
HexPointedWorlds(deep) == {Good("double", TLCEval([i \in 1..Len(c) |-> FltLit(sign \o c[i])])) : sign \in {"", "+"}, c \in Chunks(HexPointed, 60)}
HexEdgeWorlds(deep) == {Good("double", <<FltLit(x)>>) : x \in HexEdges}

(* ---- strings ---- *)
Pieces == <<"a", "0", "7", "8", "u", "n", " ", "'", "/*", "//", "*/", "@", "é", "😀", "{",
            "\\n", "\\r", "\\t", "\\b", "\\f", "\\\\", "\\\"", "\\'", "\\0", "\\7", "\\12", "\\012", "\\101", "\\177", "\\377", "\\47", "\\47",
            "\\u0041", "\\u00E9", "\\u20AC", "\\uD83D\\uDE00", "\\ud83d\\ude00", "\\uD800\\uDC00", "\\uDBFF\\uDFFF", "\\u0000", "\\u000a", "\\u007f",
            "\\uFFFF", "\\uD7FF", "\\uE000", "\\u005c">>
NP == Len(Pieces)
PieceText(n, len) == CASE len = 0 -> "" [] len = 1 -> Pieces[(n % NP) + 1]
                     [] len = 2 -> Pieces[(n % NP) + 1] \o Pieces[((n \div NP) % NP) + 1]
                     [] OTHER -> Pieces[(n % NP) + 1] \o Pieces[((n \div NP) % NP) + 1] \o Pieces[((n \div (NP * NP)) % NP) + 1]
StrsFrom(lo, n, len) == TLCEval([i \in 1..n |-> StrLit(PieceText(lo + i - 1, len))])
StringWorlds(deep) == {Good("string", StrsFrom(k * 12, 12, 2)) : k \in 0..((NP * NP) \div 12)}
ShortStringWorlds(deep) == {Good("string", <<StrLit("")>> \o StrsFrom(0, NP, 1))}
(* triples: a sample *)
TripleWorlds(deep) == {Good("string", StrsFrom(12 * k, 12, 3)) : k \in {x \in 0..((NP * NP * NP) \div 12 - 1) : x % (IF deep THEN 3 ELSE 30) = 1}}
(* keys of objects, paths of imports, namespaces *)
Key(n) == [k |-> StrOf(PieceText(n, 2)), raw |-> "\"" \o PieceText(n, 2) \o "\"", v |-> Int("1")]
KeyWorlds(deep) == {W1(<<DRecord("R", <<An("x", Obj(TLCEval([i \in 1..8 |-> Key(8 * k + i - 1)])), 101)>>, <<>>, 103)>>) : k \in 0..((NP * NP) \div 8 - 1)}
PathTexts == {"s.avsc", "\\163.avsc", "\\u0073\\56avsc", "d/\\u0073.avsc", "\\144/s.avsc", "d\\57s.avsc", "d\\u002fs.avsc", "d\\u002F\\163.avsc", "q\\u0020\\'\\\".avsc", "\\ud83d\\ude00.avsc"}
Split(s) == IF Begins(s, "d/") THEN <<"d", From(s, 3)>> ELSE <<s>>
JFix(n) == Obj(<<P("type", Str("fixed")), P("name", Str(n)), P("size", Int("1"))>>)
PathWorlds(deep) ==
  {MWorld("idl", <<>>,
     <<FIdl(<<"m.avdl">>, UProto("P", <<>>, <<[DImport("schema", Split(StrOf(t)), 100) EXCEPT !.k = "import"] @@ [raw |-> "\"" \o t \o "\""]>>)),
       FJson(<<"s.avsc">>, JFix("S")), FJson(<<"d", "s.avsc">>, JFix("DS")), FJson(<<"q '\".avsc">>, JFix("Q")), FJson(<<"😀.avsc">>, JFix("U"))>>,
     <<CFile(<<"m.avdl">>)>>) : t \in PathTexts}
AnnoTextWorlds(deep) ==
  {W1(<<DRecord("R", <<An("namespace", StrLit(t), 101)>>, <<>>, 103), DEnum("E", <<An("aliases", Arr(<<StrLit(u)>>), 201)>>, <<"A">>, 203)>>) :
     t \in {"a.b", "a\\56b", "\\u0061.b", "\\141\\u002e\\u0062"}, u \in {"Z", "\\132", "q.\\u005a", "\\u0071\\56Z"}}
=============================================================================
