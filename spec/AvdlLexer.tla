------------------------------ MODULE AvdlLexer ------------------------------
(* The lexical structure of Avro IDL: from the characters of a text to its tokens and  *)
(* comments.  A text is a sequence of characters (strings of one code point).  At every *)
(* place the longest token is taken; names and numbers stop where they can go on no     *)
(* longer, comments and strings at their first end.                                     *)
EXTENDS AvdlParser, AvdlDocs

LowCh(cp) == CharOf(cp)
EOF == ""
ChAt(C, i) == IF i >= 1 /\ i <= Len(C) THEN C[i] ELSE EOF
Sub26 == LowCh(26)
OddCh == {Sub26, LowCh(0), CharOf(1114111)}
OtherSpace == {"\f", LowCh(11), LowCh(133), LowCh(160), CharOf(8232)}
WsCh == {" ", "\t", "\n", "\r", "\f"}
NameStart == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
              "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "_"}
(* Letters and marks from elsewhere, as far as the universes use them. *)
OtherStart == {CharOf(n) : n \in {181, 233, 255, 945, 20013, 119987}}
OtherMark == {CharOf(n) : n \in {183, 769}}
Starts == TLCEval(NameStart \cup OtherStart)
Parts == TLCEval(Starts \cup OtherMark \cup Digits)
HexDigits == Digits \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
SignCh == {"+", "-"}
Suffix == {"f", "F", "d", "D"}

RECURSIVE RunEnd(_, _, _)
(* the first place from i on whose character is not in S *)
RunEnd(C, i, S) == IF i <= Len(C) /\ C[i] \in S THEN RunEnd(C, i + 1, S) ELSE i
RECURSIVE EndOf(_, _)
(* the place after the first star and slash from i on, or 0 *)
EndOf(C, i) == IF i >= Len(C) THEN 0 ELSE IF C[i] = "*" /\ C[i + 1] = "/" THEN i + 2 ELSE EndOf(C, i + 1)
RECURSIVE LineEnd(_, _)
LineEnd(C, i) == IF i > Len(C) THEN 0 ELSE IF C[i] \in {"\n", "\r"} THEN i + 1 ELSE LineEnd(C, i + 1)
Joined(C, i, j) == FoldLeft(LAMBDA acc, c : acc \o c, "", SubSeq(C, i, j - 1))

(* Each of these gives the place after the token that begins at i, or 0. *)
Or0(i, j) == IF j > i THEN j ELSE 0
Min0(x, y) == IF x < y THEN x ELSE y
Max0(S) == CHOOSE x \in S : \A y \in S : y <= x
(* ---- names ---- *)
NamePart(C, i) ==
  IF ChAt(C, i) = "`"
  THEN LET j == IF ChAt(C, i + 1) \in Starts THEN RunEnd(C, i + 2, Parts) ELSE 0 IN IF j > 0 /\ ChAt(C, j) = "`" THEN j + 1 ELSE 0
  ELSE IF ChAt(C, i) \in Starts THEN RunEnd(C, i + 1, Parts) ELSE 0
RECURSIVE NameOn(_, _)
NameOn(C, j) == IF ChAt(C, j) \in {".", "-"} THEN LET k == NamePart(C, j + 1) IN IF k = 0 THEN j ELSE NameOn(C, k) ELSE j
NameEnd(C, i) == LET j == NamePart(C, i) IN IF j = 0 THEN 0 ELSE NameOn(C, j)
(* ---- numbers ---- *)
Minus(C, i) == IF ChAt(C, i) = "-" THEN i + 1 ELSE i
Sign(C, i) == IF ChAt(C, i) \in SignCh THEN i + 1 ELSE i
HexAt(C, i) == ChAt(C, i) = "0" /\ ChAt(C, i + 1) \in {"x", "X"}
WholeEnd(C, i) ==
  CASE HexAt(C, i) /\ ChAt(C, i + 2) \in HexDigits -> RunEnd(C, i + 2, HexDigits)
  [] ChAt(C, i) = "0" -> RunEnd(C, i + 1, Octal)
  [] ChAt(C, i) \in Digits -> RunEnd(C, i + 1, Digits)
  [] OTHER -> 0
IntEnd(C, i) == LET j == WholeEnd(C, Minus(C, i)) IN IF j > 0 /\ ChAt(C, j) \in {"l", "L"} THEN j + 1 ELSE j
ExpEnd(C, i, marks) ==      \* of an exponent that begins at i
  IF ChAt(C, i) \notin marks THEN 0 ELSE LET k == Sign(C, i + 1) IN Or0(k, RunEnd(C, k, Digits))
Suffixed(C, j) == IF ChAt(C, j) \in Suffix THEN j + 1 ELSE j
WordAt(C, i, s) == Joined(C, i, IF i + Len(s) > Len(C) + 1 THEN Len(C) + 1 ELSE i + Len(s)) = s
FracEnd(C, i) ==            \* decimal
  LET a == RunEnd(C, i, Digits)
      b == IF ChAt(C, a) = "." THEN RunEnd(C, a + 1, Digits) ELSE a
      e == ExpEnd(C, b, {"e", "E"}) IN
  CASE b > a /\ b - i = 1 -> 0                       \* a point alone
  [] b > a -> Suffixed(C, IF e > 0 THEN e ELSE b)
  [] a = i -> 0
  [] e > 0 -> Suffixed(C, e)
  [] ChAt(C, a) \in Suffix -> a + 1
  [] OTHER -> 0
HexFracEnd(C, i) ==
  IF ~HexAt(C, i) THEN 0
  ELSE LET a == RunEnd(C, i + 2, HexDigits)
           b == IF ChAt(C, a) = "." THEN RunEnd(C, a + 1, HexDigits) ELSE a
           e == ExpEnd(C, b, {"p", "P"}) IN
       IF e = 0 \/ b = i + 2 \/ (b = i + 3 /\ a = i + 2) THEN 0 ELSE Suffixed(C, e)
FloatEnd(C, k) ==
  LET i == Sign(C, k)
      words == IF ChAt(C, i) = "N" /\ WordAt(C, i, "NaN") THEN i + 3 ELSE IF ChAt(C, i) = "I" /\ WordAt(C, i, "Infinity") THEN i + 8 ELSE 0 IN
  Max0({words, FracEnd(C, i), HexFracEnd(C, i)})
(* ---- strings ---- *)
Hex4(C, i) == \A n \in 0..3 : ChAt(C, i + n) \in HexDigits
RECURSIVE StringEnd(_, _)
StringEnd(C, i) ==
  CASE i > Len(C) -> 0
  [] C[i] = "\"" -> i + 1
  [] C[i] \in {"\n", "\r", "\t", "\f", LowCh(8)} -> 0
  [] C[i] = "\\" ->
       LET c == ChAt(C, i + 1) IN
       IF c \in {"\"", "'", "\\", "b", "f", "n", "r", "t"} \cup Octal THEN StringEnd(C, i + 2)
       ELSE IF c = "u" /\ Hex4(C, i + 2) THEN StringEnd(C, i + 6) ELSE 0
  [] OTHER -> StringEnd(C, i + 1)

(* escapes of characters the table of characters does not have *)
Hex4Val(C, i) == FoldLeft(LAMBDA acc, c : 16 * acc + HexVal(c), 0, SubSeq(C, i, i + 3))
KnownCh == TLCEval((0..767) \cup {CharTable.high[k].cp : k \in 1..Len(CharTable.high)})
UnknownEscape(C, i, j) == \E n \in i..(j - 6) : C[n] = "\\" /\ C[n + 1] = "u" /\ Hex4(C, n + 2) /\ Hex4Val(C, n + 2) \notin KnownCh

(* ---- one lexeme: [j, k]; k "ws", "com", "doc", "end" or the kind of a token; "odd" if *)
(* what the text means is left open, "none" if there is no lexeme here                   *)
(* an end-of-file character, NUL or the last character there is, within a comment or a string: left open *)
HasSub(C, i, j) == \E n \in i..(j - 1) : C[n] \in OddCh
(* what the text of a documentation comment is that has white space other than blanks, tabs *)
(* and line ends, or a carriage return that ends no line: left open                          *)
HasOdd(C, i, j) == HasSub(C, i, j) \/ \E n \in i..(j - 1) : C[n] \in OtherSpace \/ (C[n] = "\r" /\ ChAt(C, n + 1) # "\n")
Foreign(C, i, j) == \E n \in i..(j - 1) : C[n] \in OtherStart \cup OtherMark
Lexeme(C, i) ==
  LET c == C[i] IN
  CASE c \in WsCh -> [j |-> RunEnd(C, i, WsCh), k |-> "ws"]
  [] c = Sub26 -> [j |-> Len(C) + 1, k |-> "end"]
  [] c = "/" ->
       CASE ChAt(C, i + 1) = "/" ->
              LET j == LineEnd(C, i + 2) IN IF j = 0 THEN [j |-> 0, k |-> "none"] ELSE [j |-> j, k |-> IF HasSub(C, i, j) THEN "odd" ELSE "com"]
         [] ChAt(C, i + 1) = "*" /\ ChAt(C, i + 2) = "*" ->
              LET j == EndOf(C, i + 3) IN
              CASE ChAt(C, i + 3) = "/" /\ j > 0 -> [j |-> j, k |-> "odd"]
                [] ChAt(C, i + 3) = "/" -> [j |-> i + 4, k |-> "com"]
                [] j = 0 -> [j |-> 0, k |-> "none"]
                [] OTHER -> [j |-> j, k |-> IF HasOdd(C, i, j) THEN "odd" ELSE "doc"]
         [] ChAt(C, i + 1) = "*" ->
              LET j == EndOf(C, i + 3) IN IF j = 0 THEN [j |-> 0, k |-> "none"] ELSE [j |-> j, k |-> IF HasSub(C, i, j) THEN "odd" ELSE "com"]
         [] OTHER -> [j |-> 0, k |-> "none"]
  [] c = "\"" -> LET j == StringEnd(C, i + 1) IN IF j = 0 THEN [j |-> 0, k |-> "none"] ELSE [j |-> j, k |-> IF HasSub(C, i, j) \/ UnknownEscape(C, i, j) THEN "odd" ELSE "str"]
  [] c \in Starts \cup {"`"} ->
       LET n == NameEnd(C, i)
           f == IF c \in {"N", "I"} THEN FloatEnd(C, i) ELSE 0 IN
       IF n = 0 THEN [j |-> 0, k |-> "none"]
       ELSE IF f >= n THEN [j |-> f, k |-> "flt"] ELSE [j |-> n, k |-> IF Foreign(C, i, n) THEN "odd" ELSE "word"]
  [] c \in Digits \cup {"+", "-", "."} ->
       LET a == IntEnd(C, i)
           f == FloatEnd(C, i) IN
       IF a = 0 /\ f = 0 THEN IF c = "+" THEN [j |-> 0, k |-> "none"] ELSE [j |-> i + 1, k |-> "punct"]
       ELSE IF a >= f THEN [j |-> a, k |-> "int"] ELSE [j |-> f, k |-> "flt"]
  [] c \in Punctuation -> [j |-> i + 1, k |-> "punct"]
  [] OTHER -> [j |-> 0, k |-> "none"]

(* All of them: toks [s, k, at], els (the comments, and a mark for every token), odd,     *)
(* clean, broken (the first character that no lexeme begins with)                         *)
RECURSIVE LexFrom(_, _, _)
LexFrom(C, i, acc) ==
  IF i > Len(C) THEN acc
  ELSE LET x == Lexeme(C, i) IN
       CASE x.k = "none" -> [acc EXCEPT !.clean = FALSE, !.broken = i]
       [] x.k \in {"ws", "com"} -> LexFrom(C, x.j, acc)
       [] x.k = "end" -> acc
       [] x.k = "doc" -> LexFrom(C, x.j, [acc EXCEPT !.els = Append(@, [h |-> "doc", s |-> Joined(C, i + 3, x.j - 2), id |-> 10000000 + i])])
       [] x.k = "odd" -> LexFrom(C, x.j, [acc EXCEPT !.odd = TRUE])
       [] OTHER -> LexFrom(C, x.j, [acc EXCEPT !.toks = Append(@, [s |-> Joined(C, i, x.j), k |-> x.k, at |-> i]),
                                              !.els = Append(@, [s |-> "", own |-> NoOwner])])
Lexing(C) == TLCEval(LexFrom(C, 1, [toks |-> <<>>, els |-> <<>>, odd |-> FALSE, clean |-> TRUE, broken |-> 0]))

(* -------------------- what each comment documents -------------------------------------- *)
(* the number of the first token of every construct that may have documentation            *)
First(id) == id % 1000
FieldOwners(f) == {<<First(f.type.id), <<"field", f.vars[1].id>>>>} \cup {<<First(f.vars[i].id), <<"var", f.vars[i].id>>>> : i \in 1..Len(f.vars)}
ItemOwners(it) ==
  CASE it.k = "import" -> {}
  [] it.k = "msg" -> {<<First(it.id), <<"decl", it.id>>>>} \cup UNION {FieldOwners(it.params[i]) : i \in 1..Len(it.params)}
  [] it.k \in {"record", "error"} -> {<<First(it.id), <<"decl", it.id>>>>} \cup UNION {FieldOwners(it.fields[i]) : i \in 1..Len(it.fields)}
  [] OTHER -> {<<First(it.id), <<"decl", it.id>>>>}
Owners(u) == (IF u.form = "protocol" THEN {<<1, <<"unit", u.id>>>>} ELSE {}) \cup UNION {ItemOwners(u.items[i]) : i \in 1..Len(u.items)}
(* the elements with the owners of the tokens *)
Marked0(els, own) ==
  FoldLeft(LAMBDA acc, e : IF "h" \in DOMAIN e THEN [acc EXCEPT !.out = Append(@, e)]
                           ELSE LET n == acc.n + 1
                                    o == {x \in own : x[1] = n} IN
                                [n |-> n, out |-> Append(acc.out, [e EXCEPT !.own = IF o = {} THEN NoOwner ELSE (CHOOSE x \in o : TRUE)[2]])],
           [n |-> 0, out |-> <<>>], els).out
HasDocs(els) == \E i \in 1..Len(els) : "h" \in DOMAIN els[i]
WithDocs(u, els) == Documented(u, IF HasDocs(els) THEN TLCEval(Marked0(els, TLCEval(Owners(u)))) ELSE <<>>)

(* A whole text.  What a size or precision with the suffix of a long number means is open. *)
LongSize(ts) == \E i \in 2..Len(ts) : ts[i].k = "int" /\ ts[i - 1].s \in {"(", ","} /\ Ch(ts[i].s, Len(ts[i].s)) \in {"l", "L"}
(* Which letters names may have that are not ASCII is open, within namespace annotations too. *)
ForeignName(C, ts) == \E i \in 3..Len(ts) : ts[i].k = "str" /\ ts[i - 2].s \in {"namespace", "`namespace`"} /\ Foreign(C, ts[i].at, Min0(ts[i].at + Len(ts[i].s), Len(C) + 1))
=============================================================================
