------------------------------ MODULE AvdlHints ------------------------------
(* What an error about an undefined name may suggest: the nearest built-in types and *)
(* defined names, when they are near enough to have been meant.                      *)
EXTENDS AvroNames, Integers, SequencesExt

HintMin(a, b) == IF a < b THEN a ELSE b
(* One row of the table of distances: of i characters, the last of them ch, to every start of b. *)
EditRow(row, i, ch, b) ==
  FoldLeft(LAMBDA new, j : Append(new, HintMin(row[j] + (IF ch = Ch(b, j) THEN 0 ELSE 1), HintMin(row[j + 1], new[j]) + 1)),
           <<i>>, [j \in 1..Len(b) |-> j])
(* How many characters must be put in, left out or replaced to make b of a. *)
EditDistance(a, b) ==
  LET last == FoldLeft(LAMBDA row, i : EditRow(row, i, Ch(a, i), b), [j \in 1..Len(b) + 1 |-> j - 1], [i \in 1..Len(a) |-> i]) IN
  last[Len(b) + 1]
(* One slip in a short name, two in a long one. *)
HintSlips(a, b) == IF HintMin(Len(a), Len(b)) <= 4 THEN 1 ELSE 2
HintFar == 99
HintMeant(a, b) ==
  IF Len(a) > Len(b) + 2 \/ Len(b) > Len(a) + 2 THEN HintFar
  ELSE LET d == EditDistance(a, b) IN IF d <= HintSlips(a, b) THEN d ELSE HintFar
(* full: the undefined name; defined: the full names there are. *)
HintedNames(full, defined) ==
  LET s == SimpleOf(full)
      cands == {<<p, HintMeant(s, p)>> : p \in Primitives}
               \cup {<<r, HintMin(HintMeant(s, SimpleOf(r)), HintMeant(full, r))>> : r \in defined}
      best == CHOOSE d \in {c[2] : c \in cands} : \A c \in cands : d <= c[2] IN
  \* keywords that are no types by themselves: the report says how they are used
  IF s \in {"void", "decimal"} THEN {s}
  ELSE IF best = HintFar THEN {} ELSE {c[1] : c \in {x \in cands : x[2] = best}}
=============================================================================
