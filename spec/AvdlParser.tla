------------------------------ MODULE AvdlParser ------------------------------
(* The grammar of Avro IDL, as a parser: from the tokens of a text to its syntax tree, *)
(* or to nothing if the text is not in the language.  Alternatives are tried in order  *)
(* and the first one that fits is taken, which is exact for this grammar: no two        *)
(* alternatives fit prefixes of different lengths that both can be continued.           *)
(* A parsed part is [i, v, f]: the number of the next token (0 if it does not fit), the  *)
(* tree and, if it does not fit, the first token that cannot be there: what comes before *)
(* can be continued to a text of the language, with that token it cannot.  The number of *)
(* a construct is 1000 * its core token + its first token.                               *)
EXTENDS AvdlSyntax, AvdlLiterals

Punctuation == {"(", ")", "{", "}", "[", "]", ":", ";", ",", "@", "=", "?", "<", ">", ".", "-"}
NumberStart(s) == Ch(s, 1) \in Digits \/ (Len(s) > 1 /\ Ch(s, 1) \in {"-", "."} /\ Ch(s, 2) \in Digits \cup {"."})
FloatWords == {"NaN", "Infinity", "-Infinity", "-NaN", "+NaN", "+Infinity"}
IsHex(s) == Begins(s, "0x") \/ Begins(s, "0X") \/ Begins(s, "-0x") \/ Begins(s, "-0X")
FloatMarks(s) == IF IsHex(s) THEN {".", "p", "P"} ELSE {".", "e", "E"}
Kind(s) ==
  CASE s \in Punctuation -> "punct"
  [] Ch(s, 1) = "\"" -> "str"
  [] s \in FloatWords -> "flt"
  [] NumberStart(s) -> IF \E i \in 1..Len(s) : Ch(s, i) \in FloatMarks(s) \/ (~IsHex(s) /\ Ch(s, i) \in {"f", "F", "d", "D"}) THEN "flt" ELSE "int"
  [] OTHER -> "word"
RECURSIVE Unquoted(_, _)
Unquoted(s, i) == IF i > Len(s) THEN "" ELSE (IF Ch(s, i) = "`" THEN "" ELSE Ch(s, i)) \o Unquoted(s, i + 1)

(* tokens with their kinds *)
Lexed(ss) == TLCEval([i \in 1..Len(ss) |-> [s |-> ss[i], k |-> Kind(ss[i])]])

Ok(i, v) == [i |-> i, v |-> v, f |-> i]
NoAt(f) == [i |-> 0, v |-> <<>>, f |-> f]
(* what follows a part does not fit, or the part itself does not *)
Fails(x) == NoAt(x.f)
Further(x, y) == IF x.f >= y.f THEN x ELSE y
Is(t, i, s) == i >= 1 /\ i <= Len(t) /\ t[i].s = s
IsOne(t, i, ss) == i >= 1 /\ i <= Len(t) /\ t[i].s \in ss
IsKind(t, i, k) == i >= 1 /\ i <= Len(t) /\ t[i].k = k
IdAt(s, c) == 1000 * c + s
Tk(i) == IdAt(i, i)

(* what a string literal says *)
Contents(s) == LET r == SubSeq(s, 2, Len(s) - 1) IN IF \E i \in 1..Len(r) : Ch(r, i) = "\\" THEN StrOf(r) ELSE r
ParsedInt(s) == Int(IntOf(s))
(* ---------------------------------- values ---------------------------------- *)
RECURSIVE JVal(_, _), JElems(_, _, _), JPairs(_, _, _)
JVal(t, i) ==
  CASE IsKind(t, i, "str") -> Ok(i + 1, Str(Contents(t[i].s)))
  [] IsKind(t, i, "int") -> Ok(i + 1, ParsedInt(t[i].s))
  [] IsKind(t, i, "flt") -> Ok(i + 1, FltOf(t[i].s))
  [] Is(t, i, "null") -> Ok(i + 1, Null)
  [] Is(t, i, "true") -> Ok(i + 1, Bool(TRUE))
  [] Is(t, i, "false") -> Ok(i + 1, Bool(FALSE))
  [] Is(t, i, "[") -> IF Is(t, i + 1, "]") THEN Ok(i + 2, Arr(<<>>)) ELSE JElems(t, i + 1, <<>>)
  [] Is(t, i, "{") -> IF Is(t, i + 1, "}") THEN Ok(i + 2, Obj(<<>>)) ELSE JPairs(t, i + 1, <<>>)
  [] OTHER -> NoAt(i)
JElems(t, i, vs) ==
  LET e == JVal(t, i) IN
  CASE Is(t, e.i, ",") -> JElems(t, e.i + 1, Append(vs, e.v))
  [] Is(t, e.i, "]") -> Ok(e.i + 1, Arr(Append(vs, e.v)))
  [] OTHER -> Fails(e)
JPairs(t, i, ps) ==
  IF ~IsKind(t, i, "str") \/ ~Is(t, i + 1, ":") THEN NoAt(IF IsKind(t, i, "str") THEN i + 1 ELSE i)
  ELSE LET e == JVal(t, i + 2)
           p == P(Contents(t[i].s), e.v) IN
       CASE Is(t, e.i, ",") -> JPairs(t, e.i + 1, Append(ps, p))
       [] Is(t, e.i, "}") -> Ok(e.i + 1, Obj(Append(ps, p)))
       [] OTHER -> Fails(e)

(* every word may be a name *)
Name(t, i) == IF IsKind(t, i, "word") THEN Ok(i + 1, Unquoted(t[i].s, 1)) ELSE NoAt(i)
(* @name(value) ... *)
RECURSIVE Annos(_, _, _)
Annos(t, i, as) ==
  IF ~Is(t, i, "@") THEN Ok(i, as)
  ELSE LET n == Name(t, i + 1) IN
       IF n.i = 0 \/ ~Is(t, n.i, "(") THEN Fails(n)
       ELSE LET v == JVal(t, n.i + 1) IN
            IF Is(t, v.i, ")") THEN Annos(t, v.i + 1, Append(as, [n |-> n.v, v |-> v.v, id |-> Tk(i)])) ELSE Fails(v)

(* ----------------------------------- types ---------------------------------- *)
PrimWords == {"boolean", "int", "long", "float", "double", "bytes", "string", "null",
              "date", "time_ms", "timestamp_ms", "local_timestamp_ms", "uuid"}
IntTok(t, i) == [s |-> IntOf(t[i].s), id |-> Tk(i)]
DecimalEnd(t, i) ==       \* of "decimal" "(" int [ "," int ] ")", or 0
  IF ~(Is(t, i, "decimal") /\ Is(t, i + 1, "(") /\ IsKind(t, i + 2, "int")) THEN 0
  ELSE IF Is(t, i + 3, ")") THEN i + 4
  ELSE IF Is(t, i + 3, ",") /\ IsKind(t, i + 4, "int") /\ Is(t, i + 5, ")") THEN i + 6 ELSE 0
DecimalStop(t, i) ==      \* where a decimal that is none stops being one
  IF ~IsKind(t, i + 2, "int") THEN i + 2
  ELSE IF ~Is(t, i + 3, ",") THEN i + 3
  ELSE IF ~IsKind(t, i + 4, "int") THEN i + 4 ELSE i + 5
Marked(t, i, ty) == LET q == Is(t, i, "?") IN Ok(IF q THEN i + 1 ELSE i, [ty EXCEPT !.q = q])
RECURSIVE PlainType(_, _, _, _), FullType(_, _), Members(_, _, _)
PlainType(t, i, annos, start) ==
  LET id == IdAt(start, i) IN
  CASE (Is(t, i, "array") \/ Is(t, i, "map")) /\ Is(t, i + 1, "<") ->
         LET e == FullType(t, i + 2) IN
         IF Is(t, e.i, ">") THEN Ok(e.i + 1, [k |-> IF t[i].s = "array" THEN "arr" ELSE "map", of |-> e.v, annos |-> annos, id |-> id]) ELSE Fails(e)
  [] Is(t, i, "union") /\ Is(t, i + 1, "{") ->
         LET ms == Members(t, i + 2, <<>>) IN
         IF ms.i = 0 THEN Fails(ms) ELSE Ok(ms.i, [k |-> "uni", of |-> ms.v, annos |-> annos, id |-> id])
  [] DecimalEnd(t, i) > 0 ->
         LET e == DecimalEnd(t, i) IN
         Marked(t, e, [k |-> "dec", n |-> "decimal", p |-> IntTok(t, i + 2), s |-> IF e = i + 6 THEN <<IntTok(t, i + 4)>> ELSE <<>>,
                       q |-> FALSE, annos |-> annos, id |-> id])
  [] Is(t, i, "decimal") /\ Is(t, i + 1, "(") -> NoAt(DecimalStop(t, i))
  [] IsKind(t, i, "word") ->
         Marked(t, i + 1, [k |-> IF t[i].s \in PrimWords THEN "prim" ELSE "ref", n |-> Unquoted(t[i].s, 1), q |-> FALSE, annos |-> annos, id |-> id])
  [] OTHER -> NoAt(i)
FullType(t, i) == LET a == Annos(t, i, <<>>) IN IF a.i = 0 THEN a ELSE PlainType(t, a.i, a.v, i)
Members(t, i, ms) ==
  LET m == FullType(t, i) IN
  CASE Is(t, m.i, ",") -> Members(t, m.i + 1, Append(ms, m.v))
  [] Is(t, m.i, "}") -> Ok(m.i + 1, Append(ms, m.v))
  [] OTHER -> Fails(m)

(* ----------------------------------- fields --------------------------------- *)
Variable(t, i) ==
  LET a == Annos(t, i, <<>>)
      n == IF a.i = 0 THEN a ELSE Name(t, a.i) IN
  IF n.i = 0 THEN Fails(n)
  ELSE LET d == IF Is(t, n.i, "=") THEN JVal(t, n.i + 1) ELSE Ok(n.i, <<>>) IN
       IF d.i = 0 THEN Fails(d)
       ELSE Ok(d.i, [ident |-> n.v, doc |-> <<>>, annos |-> a.v, dflt |-> IF Is(t, n.i, "=") THEN <<d.v>> ELSE <<>>,
                     id |-> IdAt(i, a.i), did |-> Tk(n.i + 1)])
RECURSIVE Variables(_, _, _)
Variables(t, i, vs) ==
  LET v == Variable(t, i) IN
  CASE v.i = 0 -> Fails(v)
  [] Is(t, v.i, ",") -> Variables(t, v.i + 1, Append(vs, v.v))
  [] OTHER -> Ok(v.i, Append(vs, v.v))
FieldD(ty, vs) == [doc |-> <<>>, type |-> ty, vars |-> vs]
RECURSIVE RecFields(_, _, _)
RecFields(t, i, fs) ==
  IF Is(t, i, "}") THEN Ok(i + 1, fs)
  ELSE LET ty == FullType(t, i)
           vs == IF ty.i = 0 THEN ty ELSE Variables(t, ty.i, <<>>) IN
       IF Is(t, vs.i, ";") THEN RecFields(t, vs.i + 1, Append(fs, FieldD(ty.v, vs.v))) ELSE Fails(vs)
RECURSIVE Params(_, _, _)
Params(t, i, fs) ==
  LET ty == FullType(t, i)
      v == IF ty.i = 0 THEN ty ELSE Variable(t, ty.i) IN
  CASE v.i = 0 -> Fails(v)
  [] Is(t, v.i, ",") -> Params(t, v.i + 1, Append(fs, FieldD(ty.v, <<v.v>>)))
  [] Is(t, v.i, ")") -> Ok(v.i + 1, Append(fs, FieldD(ty.v, <<v.v>>)))
  [] OTHER -> Fails(v)

(* -------------------------------- declarations ------------------------------- *)
RECURSIVE Symbols(_, _, _), Thrown(_, _, _)
(* annotations of a symbol mean nothing *)
Symbols(t, i, ss) ==
  LET a == Annos(t, i, <<>>)
      n == IF a.i = 0 THEN a ELSE Name(t, a.i) IN
  CASE n.i = 0 -> Fails(n)
  [] Is(t, n.i, ",") -> Symbols(t, n.i + 1, Append(ss, [s |-> n.v, id |-> IdAt(i, a.i)]))
  [] Is(t, n.i, "}") -> Ok(n.i + 1, Append(ss, [s |-> n.v, id |-> IdAt(i, a.i)]))
  [] OTHER -> Fails(n)
Thrown(t, i, ns) ==
  LET n == Name(t, i) IN
  CASE n.i = 0 -> Fails(n)
  [] Is(t, n.i, ",") -> Thrown(t, n.i + 1, Append(ns, [n |-> n.v, id |-> Tk(i)]))
  [] OTHER -> Ok(n.i, Append(ns, [n |-> n.v, id |-> Tk(i)]))
Head0(k, ident, annos, i, j) == [k |-> k, ident |-> ident, doc |-> <<>>, annos |-> annos, id |-> IdAt(i, j), nid |-> Tk(j + 1)]
(* a declaration of a named type: j is where its annotations end *)
Named(t, i, a) ==
  LET j == a.i
      n == IF j = 0 THEN a ELSE IF IsOne(t, j, {"fixed", "enum", "record", "error"}) THEN Name(t, j + 1) ELSE NoAt(j) IN
  CASE n.i = 0 -> Fails(n)
  [] Is(t, j, "fixed") ->
       IF Is(t, n.i, "(") /\ IsKind(t, n.i + 1, "int") /\ Is(t, n.i + 2, ")") /\ Is(t, n.i + 3, ";")
       THEN Ok(n.i + 4, Head0("fixed", n.v, a.v, i, j) @@ [size |-> IntTok(t, n.i + 1)])
       ELSE NoAt(IF ~Is(t, n.i, "(") THEN n.i ELSE IF ~IsKind(t, n.i + 1, "int") THEN n.i + 1 ELSE IF ~Is(t, n.i + 2, ")") THEN n.i + 2 ELSE n.i + 3)
  [] Is(t, j, "enum") ->
       LET ss == IF ~Is(t, n.i, "{") THEN Fails(n) ELSE IF Is(t, n.i + 1, "}") THEN Ok(n.i + 2, <<>>) ELSE Symbols(t, n.i + 1, <<>>)
           e == Head0("enum", n.v, a.v, i, j) @@ [syms |-> ss.v, dflt |-> <<>>] IN
       CASE ss.i = 0 -> Fails(ss)
       [] Is(t, ss.i, "=") ->
            LET d == Name(t, ss.i + 1) IN
            IF Is(t, d.i, ";") THEN Ok(d.i + 1, [e EXCEPT !.dflt = <<[s |-> d.v, id |-> Tk(ss.i + 1)]>>]) ELSE Fails(d)
       [] OTHER -> Ok(ss.i, e)
  [] Is(t, j, "record") \/ Is(t, j, "error") ->
       LET fs == IF Is(t, n.i, "{") THEN RecFields(t, n.i + 1, <<>>) ELSE Fails(n) IN
       IF fs.i = 0 THEN Fails(fs) ELSE Ok(fs.i, Head0(t[j].s, n.v, a.v, i, j) @@ [fields |-> fs.v])
  [] OTHER -> NoAt(j)
Import0(t, i) ==
  IF Is(t, i, "import") /\ i + 3 <= Len(t) /\ t[i + 1].s \in {"idl", "protocol", "schema"} /\ IsKind(t, i + 2, "str") /\ Is(t, i + 3, ";")
  THEN Ok(i + 4, [k |-> "import", how |-> t[i + 1].s, path |-> <<Contents(t[i + 2].s)>>, abs |-> FALSE, id |-> Tk(i)])
  ELSE NoAt(IF ~Is(t, i, "import") THEN i
            ELSE IF ~IsOne(t, i + 1, {"idl", "protocol", "schema"}) THEN i + 1
            ELSE IF ~IsKind(t, i + 2, "str") THEN i + 2 ELSE i + 3)
Message(t, i, a) ==      \* void? is a type of that name
  LET r == IF a.i = 0 THEN a ELSE IF Is(t, a.i, "void") /\ ~Is(t, a.i + 1, "?") THEN Ok(a.i + 1, [k |-> "void", id |-> Tk(a.i)]) ELSE PlainType(t, a.i, <<>>, a.i)
      n == IF r.i = 0 THEN r ELSE Name(t, r.i)
      ps == IF ~Is(t, n.i, "(") THEN Fails(n) ELSE IF Is(t, n.i + 1, ")") THEN Ok(n.i + 2, <<>>) ELSE Params(t, n.i + 1, <<>>)
      one == Is(t, ps.i, "oneway")
      th == IF ps.i = 0 THEN ps ELSE IF Is(t, ps.i, "throws") THEN Thrown(t, ps.i + 1, <<>>) ELSE Ok(IF one THEN ps.i + 1 ELSE ps.i, <<>>) IN
  IF ps.i = 0 \/ ~Is(t, th.i, ";") THEN Fails(th)
  ELSE Ok(th.i + 1, [k |-> "msg", ident |-> n.v, doc |-> <<>>, annos |-> a.v, ret |-> r.v, params |-> ps.v, throws |-> th.v,
                     oneway |-> one, id |-> IdAt(i, a.i)])
RECURSIVE BodyItems(_, _, _, _)
(* the items up to a closing brace (messages allowed) or to the end *)
BodyItems(t, i, body, its) ==
  IF body /\ Is(t, i, "}") THEN Ok(i + 1, its)
  ELSE IF ~body /\ i = Len(t) + 1 THEN Ok(i, its)
  ELSE LET im == Import0(t, i)
           a == Annos(t, i, <<>>)
           d == IF im.i > 0 THEN im ELSE LET x == Named(t, i, a) IN IF x.i > 0 THEN x ELSE Further(im, x)
           m == IF d.i > 0 \/ ~body THEN d ELSE LET x == Message(t, i, a) IN IF x.i > 0 THEN x ELSE Further(d, x) IN
       IF m.i = 0 THEN Fails(m) ELSE BodyItems(t, m.i, body, Append(its, m.v))

(* ------------------------------------ files ---------------------------------- *)
Unit0 == [form |-> "bare", id |-> 5, nid |-> 6, doc |-> <<>>, annos |-> <<>>, ident |-> "", ns |-> <<>>,
          main |-> [k |-> "void", id |-> 0], items |-> <<>>]
ProtocolPart(t) ==
  LET a == Annos(t, 1, <<>>)
      n == IF Is(t, a.i, "protocol") THEN Name(t, a.i + 1) ELSE Fails(a)
      b == IF Is(t, n.i, "{") THEN BodyItems(t, n.i + 1, TRUE, <<>>) ELSE Fails(n) IN
  IF b.i # Len(t) + 1 THEN Fails(b)
  ELSE Ok(b.i, [Unit0 EXCEPT !.form = "protocol", !.nid = Tk(a.i + 1), !.annos = a.v, !.ident = n.v, !.items = b.v])
SchemaPart(t) ==
  LET n == IF Is(t, 1, "namespace") THEN Name(t, 2) ELSE Ok(1, <<>>)
      i == IF n.i = 0 \/ (n.i > 1 /\ ~Is(t, n.i, ";")) THEN 0 ELSE IF n.i > 1 THEN n.i + 1 ELSE 1
      m == IF i = 0 THEN Fails(n) ELSE IF Is(t, i, "schema") THEN FullType(t, i + 1) ELSE Ok(i, <<>>)
      j == IF i = 0 \/ m.i = 0 THEN 0 ELSE IF ~Is(t, i, "schema") THEN i ELSE IF Is(t, m.i, ";") THEN m.i + 1 ELSE 0
      b == IF j = 0 THEN Fails(m) ELSE BodyItems(t, j, FALSE, <<>>) IN
  IF b.i = 0 THEN Fails(b)
  ELSE Ok(b.i, [Unit0 EXCEPT !.form = IF Is(t, i, "schema") THEN "schema" ELSE "bare", !.ns = IF n.i > 1 THEN <<n.v>> ELSE <<>>,
                             !.main = IF Is(t, i, "schema") THEN m.v ELSE @, !.items = b.v])
(* The tree of a text, or the first token that no text of the language has there *)
Parsing(t) ==
  LET p == ProtocolPart(t) IN
  IF p.i > 0 THEN p ELSE LET s == SchemaPart(t) IN IF s.i > 0 THEN s ELSE Further(p, s)
(* The tree of a text, or nothing *)
ParsedTokens(t) == LET p == Parsing(t) IN IF p.i > 0 THEN <<p.v>> ELSE <<>>
Parsed(ss) == ParsedTokens(Lexed(ss))
=============================================================================
