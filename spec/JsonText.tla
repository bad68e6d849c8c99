------------------------------- MODULE JsonText -------------------------------
(* JSON texts, with comments, character by character: what value a text denotes, that  *)
(* it is no JSON, or that its meaning is left open.                                     *)
EXTENDS AvdlLexer

JWs == {" ", "\t", "\n", "\r"}
JControls == {CharOf(n) : n \in 0..31}
JEscapes == {"\"", "\\", "/", "b", "f", "n", "r", "t"}
(* A lexeme: [j, k, v]: the place after it, "ws", "com", "punct", "val", "str", "odd" or "none", its value. *)
JNone == [j |-> 0, k |-> "none", v |-> Null]
JTok(j, k, v) == [j |-> j, k |-> k, v |-> v]

RECURSIVE JLineEnd(_, _)
JLineEnd(C, i) == IF i > Len(C) THEN i ELSE IF C[i] = "\n" THEN i + 1 ELSE JLineEnd(C, i + 1)
JComment(C, i) ==
  CASE ChAt(C, i + 1) = "/" ->
         LET j == JLineEnd(C, i + 2) IN
         JTok(j, IF \E n \in i..(j - 1) : C[n] = "\r" /\ ChAt(C, n + 1) # "\n" THEN "odd" ELSE "com", Null)
    [] ChAt(C, i + 1) = "*" -> LET j == EndOf(C, i + 2) IN IF j = 0 THEN JNone ELSE JTok(j, "com", Null)
    [] OTHER -> JNone

(* ---- strings: the contents with the escapes replaced; odd: a lone surrogate or a        *)
(* character that the table does not have                                                  *)
IsHi(n) == n \in 55296..56319
IsLo(n) == n \in 56320..57343
RECURSIVE JStr(_, _, _, _)
JStr(C, i, out, odd) ==
  CASE i > Len(C) -> JNone
  [] C[i] = "\"" -> JTok(i + 1, IF odd THEN "odd" ELSE "str", Str(out))
  [] C[i] \in JControls -> JNone
  [] C[i] = "\\" /\ ChAt(C, i + 1) \in JEscapes ->
       JStr(C, i + 2, out \o (IF C[i + 1] = "/" THEN "/" ELSE CharOf(EscapeOf(C[i + 1]))), odd)
  [] C[i] = "\\" /\ ChAt(C, i + 1) = "u" /\ Hex4(C, i + 2) ->
       LET n == Hex4Val(C, i + 2)
           pair == IsHi(n) /\ ChAt(C, i + 6) = "\\" /\ ChAt(C, i + 7) = "u" /\ Hex4(C, i + 8) /\ IsLo(Hex4Val(C, i + 8))
           cp == IF pair THEN 65536 + (n - 55296) * 1024 + (Hex4Val(C, i + 8) - 56320) ELSE n IN
       IF cp \in KnownCh THEN JStr(C, IF pair THEN i + 12 ELSE i + 6, out \o CharOf(cp), odd)
       ELSE JStr(C, i + 6, out, TRUE)
  [] C[i] = "\\" -> JNone
  [] OTHER -> JStr(C, i + 1, out \o C[i], odd)

(* ---- numbers ---- *)
JIntEnd(C, i) ==        \* of the digits before a point
  IF ChAt(C, i) = "0" THEN i + 1 ELSE Or0(i, RunEnd(C, i, Digits))
JNumber(C, i) ==
  LET a == JIntEnd(C, Minus(C, i))
      b == IF a > 0 /\ ChAt(C, a) = "." THEN Or0(a + 1, RunEnd(C, a + 1, Digits)) ELSE a
      x == ChAt(C, b) \in {"e", "E"}
      e == IF b > 0 /\ x THEN ExpEnd(C, b, {"e", "E"}) ELSE b IN
  IF a = 0 \/ b = 0 \/ e = 0 THEN JNone
  ELSE LET s == Joined(C, i, e) IN
       CASE e = a /\ s = "-0" -> JTok(e, "odd", Null)
         [] e = a -> JTok(e, IF Len(s) > 18 THEN "odd" ELSE "val", Int(s))
         [] OTHER -> JTok(e, IF e - b > 2 \/ b - i > 15 THEN "odd" ELSE "val", Flt(s))
JWordAt(C, i, s) == i + Len(s) <= Len(C) + 1 /\ Joined(C, i, i + Len(s)) = s
JLexeme(C, i) ==
  LET c == C[i] IN
  CASE c \in JWs -> JTok(RunEnd(C, i, JWs), "ws", Null)
  [] c = "/" -> JComment(C, i)
  [] c \in {"{", "}", "[", "]", ":", ","} -> JTok(i + 1, "punct", Str(c))
  [] c = "\"" -> JStr(C, i + 1, "", FALSE)
  [] c \in Digits \cup {"-"} -> JNumber(C, i)
  [] JWordAt(C, i, "null") -> JTok(i + 4, "val", Null)
  [] JWordAt(C, i, "true") -> JTok(i + 4, "val", Bool(TRUE))
  [] JWordAt(C, i, "false") -> JTok(i + 5, "val", Bool(FALSE))
  [] OTHER -> JNone
RECURSIVE JLexFrom(_, _, _)
JLexFrom(C, i, acc) ==
  IF i > Len(C) THEN acc
  ELSE LET x == JLexeme(C, i) IN
       CASE x.k = "none" -> [acc EXCEPT !.clean = FALSE]
       [] x.k \in {"ws", "com"} -> JLexFrom(C, x.j, acc)
       [] x.k = "odd" -> JLexFrom(C, x.j, [acc EXCEPT !.odd = TRUE])
       [] OTHER -> JLexFrom(C, x.j, [acc EXCEPT !.toks = Append(@, x)])
JLexing(C) == TLCEval(JLexFrom(C, 1, [toks |-> <<>>, odd |-> FALSE, clean |-> TRUE]))

(* ---- the grammar; a part is [i, v] as in AvdlParser ---- *)
JIs(t, i, s) == i >= 1 /\ i <= Len(t) /\ t[i].k = "punct" /\ t[i].v.s = s
RECURSIVE TVal(_, _), TElems(_, _, _), TPairs(_, _, _)
TVal(t, i) ==
  CASE i < 1 \/ i > Len(t) -> NoAt(i)
  [] t[i].k \in {"val", "str"} -> Ok(i + 1, t[i].v)
  [] JIs(t, i, "[") -> IF JIs(t, i + 1, "]") THEN Ok(i + 2, Arr(<<>>)) ELSE TElems(t, i + 1, <<>>)
  [] JIs(t, i, "{") -> IF JIs(t, i + 1, "}") THEN Ok(i + 2, Obj(<<>>)) ELSE TPairs(t, i + 1, <<>>)
  [] OTHER -> NoAt(i)
TElems(t, i, vs) ==
  LET e == TVal(t, i) IN
  CASE JIs(t, e.i, ",") -> TElems(t, e.i + 1, Append(vs, e.v))
  [] JIs(t, e.i, "]") -> Ok(e.i + 1, Arr(Append(vs, e.v)))
  [] OTHER -> NoAt(i)
TPairs(t, i, ps) ==
  IF i > Len(t) THEN NoAt(i)
  ELSE IF t[i].k # "str" \/ ~JIs(t, i + 1, ":") THEN NoAt(i)
  ELSE LET e == TVal(t, i + 2)
           p == P(t[i].v.s, e.v) IN
       CASE JIs(t, e.i, ",") -> TPairs(t, e.i + 1, Append(ps, p))
       [] JIs(t, e.i, "}") -> Ok(e.i + 1, Obj(Append(ps, p)))
       [] OTHER -> NoAt(i)
(* Which letters names may have that are not ASCII is open. *)
JForeignName(C, t) == \E i \in 3..Len(t) : t[i].k = "str" /\ t[i - 2].k = "str" /\ t[i - 2].v.s \in {"name", "namespace", "protocol"} /\ Foreign(C, t[i - 1].j, t[i].j)
(* <<value>>, or <<>> *)
JsonOf(toks) == LET p == TVal(toks, 1) IN IF p.i = Len(toks) + 1 THEN <<p.v>> ELSE <<>>
===============================================================================
