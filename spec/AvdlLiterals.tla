----------------------------- MODULE AvdlLiterals -----------------------------
(* What the literals of Avro IDL denote, character by character.                     *)
EXTENDS AvroValues, SequencesExt, Json

Explode(s) == TLCEval([i \in 1..Len(s) |-> Ch(s, i)])
From(s, i) == SubSeq(s, i, Len(s))
Begins(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

(* -------------------- numerals: digits, the last one first ------------------- *)
HexVal(c) ==
  CASE c \in Digits -> DigitVal[c]
  [] c \in {"a", "A"} -> 10 [] c \in {"b", "B"} -> 11 [] c \in {"c", "C"} -> 12
  [] c \in {"d", "D"} -> 13 [] c \in {"e", "E"} -> 14 [] OTHER -> 15
DigitChars == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Carried(_)
Carried(n) == IF n = 0 THEN <<>> ELSE <<n % 10>> \o Carried(n \div 10)
(* q * b + d *)
MulAdd(q, b, d) ==
  LET r == FoldLeft(LAMBDA acc, x : LET n == x * b + acc.c IN [out |-> Append(acc.out, n % 10), c |-> n \div 10],
                    [out |-> <<>>, c |-> d], q) IN
  TLCEval(r.out \o Carried(r.c))
Shown(q) == IF q = <<>> THEN "0" ELSE FoldLeft(LAMBDA acc, x : DigitChars[x + 1] \o acc, "", q)
(* the digits of s in base b *)
Magnitude(s, b) == FoldLeft(LAMBDA acc, c : MulAdd(acc, b, HexVal(c)), <<>>, Explode(s))
RECURSIVE Times(_, _, _)
Times(q, b, n) == IF n = 0 THEN q
                  ELSE IF n >= 8 THEN Times(MulAdd(q, b * b * b * b * b * b * b * b, 0), b, n - 8)
                  ELSE Times(MulAdd(q, b, 0), b, n - 1)
(* without leading zeros *)
RECURSIVE Trimmed(_)
Trimmed(q) == IF q # <<>> /\ q[Len(q)] = 0 THEN Trimmed(SubSeq(q, 1, Len(q) - 1)) ELSE q
Signed(neg, q) == LET z == Trimmed(q) IN IF neg /\ z # <<>> THEN "-" \o Shown(z) ELSE Shown(z)

(* ---------------------------------- integers --------------------------------- *)
(* [-] decimal, 0x hexadecimal or 0 octal digits, with l or L at the end or not *)
NoSuffix(s) == IF Ch(s, Len(s)) \in {"l", "L"} THEN SubSeq(s, 1, Len(s) - 1) ELSE s
IntOf(lit) ==
  LET neg == Ch(lit, 1) = "-"
      s == NoSuffix(IF neg THEN From(lit, 2) ELSE lit) IN
  CASE Begins(s, "0x") \/ Begins(s, "0X") -> Signed(neg, Magnitude(From(s, 3), 16))
  [] Begins(s, "0") -> Signed(neg, Magnitude(s, 8))
  [] OTHER -> Signed(neg, Magnitude(s, 10))
IntLit(lit) == Int(IntOf(lit)) @@ [raw |-> lit]

(* --------------------------- floating-point numbers -------------------------- *)
IdxOf(s, cs) == LET k == {i \in 1..Len(s) : Ch(s, i) \in cs} IN
                IF k = {} THEN 0 ELSE CHOOSE i \in k : \A j \in k : i <= j
RECURSIVE NatOf(_, _)
NatOf(s, n) == IF s = "" THEN n ELSE NatOf(From(s, 2), 10 * n + DigitVal[Ch(s, 1)])
(* The exact decimal value of 0x digits p exponent *)
HexFloat(s) ==
  LET p == IdxOf(s, {"p", "P"})
      m == SubSeq(s, 1, p - 1)
      e == From(s, p + 1)
      dot == IdxOf(m, {"."})
      frac == IF dot = 0 THEN 0 ELSE Len(m) - dot
      ds == IF dot = 0 THEN m ELSE SubSeq(m, 1, dot - 1) \o From(m, dot + 1)
      eneg == e # "" /\ Ch(e, 1) = "-"
      mag == NatOf(IF e # "" /\ Ch(e, 1) \in {"-", "+"} THEN From(e, 2) ELSE e, 0)
      \* the value is ds * 2^(+-mag - 4 * frac)
      up == IF eneg THEN 0 ELSE IF mag >= 4 * frac THEN mag - 4 * frac ELSE 0
      down == IF eneg THEN mag + 4 * frac ELSE IF mag >= 4 * frac THEN 0 ELSE 4 * frac - mag
      q == Magnitude(ds, 16) IN
  IF down = 0 THEN Shown(Trimmed(Times(q, 2, up))) \o ".0"
  ELSE Shown(Trimmed(Times(q, 5, down))) \o "e-" \o ToString(down)
FltOf(lit) ==
  LET neg == Ch(lit, 1) = "-"
      s == IF Ch(lit, 1) \in {"-", "+"} THEN From(lit, 2) ELSE lit
      hex == Begins(s, "0x") \/ Begins(s, "0X")
      last == Ch(s, Len(s))
      n == IF last \in {"f", "F", "d", "D"} THEN SubSeq(s, 1, Len(s) - 1) ELSE s IN
  CASE s = "NaN" -> Str("NaN")
  [] s = "Infinity" -> Str(IF neg THEN "-Infinity" ELSE "Infinity")
  [] OTHER -> Flt((IF neg THEN "-" ELSE "") \o (IF hex THEN HexFloat(From(n, 3)) ELSE n))
FltLit(lit) == FltOf(lit) @@ [raw |-> lit]

(* ----------------------------------- strings --------------------------------- *)
(* A reader passes over the characters between the quotes.  st: "plain", "esc" after *)
(* a backslash, "u" after \u, "hex" within its digits, "oct" within an octal escape;  *)
(* n: the number read so far, k: how many digits; hi: a high surrogate that waits.     *)
CharTable == JsonDeserialize("chars.json")
CharOf(cp) == IF cp < 768 THEN CharTable.low[cp + 1]
              ELSE LET k == CHOOSE i \in 1..Len(CharTable.high) : CharTable.high[i].cp = cp IN CharTable.high[k].s
Str0 == [st |-> "plain", n |-> 0, k |-> 0, hi |-> 0, out |-> ""]
Put(r, n) ==
  CASE n \in 55296..56319 -> [r EXCEPT !.hi = n, !.st = "plain"]
  [] n \in 56320..57343 -> [r EXCEPT !.out = @ \o CharOf(65536 + (r.hi - 55296) * 1024 + (n - 56320)), !.hi = 0, !.st = "plain"]
  [] OTHER -> [r EXCEPT !.out = @ \o CharOf(n), !.st = "plain"]
EscapeOf(c) == CASE c = "n" -> 10 [] c = "r" -> 13 [] c = "t" -> 9 [] c = "b" -> 8 [] c = "f" -> 12
               [] c = "\\" -> 92 [] c = "\"" -> 34 [] OTHER -> 39
Octal == {"0", "1", "2", "3", "4", "5", "6", "7"}
ReadPlain(r, c) == IF c = "\\" THEN [r EXCEPT !.st = "esc"] ELSE [r EXCEPT !.out = @ \o c]
ReadChar(r, c) ==
  CASE r.st = "plain" -> ReadPlain(r, c)
  [] r.st = "esc" ->
       CASE c = "u" -> [r EXCEPT !.st = "u", !.n = 0, !.k = 0]
       [] c \in Octal -> [r EXCEPT !.st = "oct", !.n = DigitVal[c], !.k = IF c \in {"0", "1", "2", "3"} THEN 2 ELSE 1]
       [] OTHER -> Put(r, EscapeOf(c))
  [] r.st = "u" /\ c = "u" -> r
  [] r.st \in {"u", "hex"} ->
       LET m == 16 * r.n + HexVal(c) IN
       IF r.k = 3 THEN Put(r, m) ELSE [r EXCEPT !.st = "hex", !.n = m, !.k = @ + 1]
  [] OTHER ->     \* octal; k: how many more digits it may have
       IF c \in Octal /\ r.k > 0
       THEN LET m == 8 * r.n + DigitVal[c] IN
            IF r.k = 1 THEN Put(r, m) ELSE [r EXCEPT !.n = m, !.k = @ - 1]
       ELSE ReadPlain(Put(r, r.n), c)
StrOf(lit) == LET r == TLCEval(FoldLeft(ReadChar, Str0, Explode(lit))) IN
              IF r.st = "oct" THEN Put(r, r.n).out ELSE r.out
(* lit without its quotes *)
StrLit(lit) == Str(StrOf(lit)) @@ [raw |-> "\"" \o lit \o "\""]
=============================================================================
