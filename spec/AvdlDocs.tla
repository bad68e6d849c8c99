------------------------------- MODULE AvdlDocs -------------------------------
(* Documentation comments: what they document, and what their text is.               *)
(* The source is a sequence of elements: tokens [s, own] of AvdlSyntax and hidden     *)
(* elements [h, s, id], h "doc" (s is what stands between the delimiters), "com"       *)
(* (any other comment) or "ws".                                                        *)
EXTENDS AvdlSyntax, FiniteSets, SequencesExt

(* ------------------------------ attachment ---------------------------------- *)
(* A reader passes over the elements from left to right.  pend: the comment that       *)
(* would document what comes next, if any; docs: what is documented so far;            *)
(* strays: the comments that document nothing.                                         *)
Reader0 == [pend |-> <<>>, docs |-> <<>>, strays |-> <<>>]
Stray(r) == [r EXCEPT !.strays = @ \o (IF r.pend = <<>> THEN <<>> ELSE <<r.pend[1].id>>), !.pend = <<>>]
ReadOne(r, e) ==
  IF "h" \in DOMAIN e
  THEN CASE e.h = "ws" -> r
       [] e.h = "com" -> r
       [] OTHER -> [Stray(r) EXCEPT !.pend = <<e>>]
  ELSE IF e.own # NoOwner /\ r.pend # <<>>
       THEN [r EXCEPT !.docs = Append(@, [own |-> e.own, s |-> r.pend[1].s]), !.pend = <<>>]
       ELSE Stray(r)
ReadAll(els) == Stray(FoldLeft(ReadOne, Reader0, els))

(* --------------------------------- the text ---------------------------------- *)
Blank(c) == c \in {" ", "\t"}
Space(c) == Blank(c) \/ c \in {"\n", "\r"}
RECURSIVE TrimL(_), TrimR(_), DropBlanks(_)
TrimL(s) == IF s # "" /\ Space(Ch(s, 1)) THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
TrimR(s) == IF s # "" /\ Space(Ch(s, Len(s))) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
DropBlanks(s) == IF s # "" /\ Blank(Ch(s, 1)) THEN DropBlanks(SubSeq(s, 2, Len(s))) ELSE s
(* Lines without their line breaks, and the breaks: [s, br] *)
RECURSIVE LinesFrom(_, _)
LinesFrom(s, i) ==
  IF i > Len(s) THEN <<[s |-> s, br |-> ""]>>
  ELSE IF Ch(s, i) = "\n"
       THEN LET crlf == i > 1 /\ Ch(s, i - 1) = "\r"
                n == IF crlf THEN i - 2 ELSE i - 1 IN
            <<[s |-> SubSeq(s, 1, n), br |-> IF crlf THEN "\r\n" ELSE "\n"]>> \o LinesFrom(SubSeq(s, i + 1, Len(s)), 1)
       ELSE LinesFrom(s, i + 1)
RECURSIVE JoinLines(_, _)
JoinLines(ls, i) == IF i > Len(ls) THEN "" ELSE ls[i].s \o ls[i].br \o JoinLines(ls, i + 1)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
(* A margin of stars: every line that is not blank begins with them. *)
Margin(ls, stars) ==
  /\ StartsWith(ls[1].s, stars)
  /\ \A i \in 2..Len(ls) : LET l == DropBlanks(ls[i].s) IN l = "" \/ StartsWith(l, stars)
OneBlankLess(s) == IF s # "" /\ Blank(Ch(s, 1)) THEN SubSeq(s, 2, Len(s)) ELSE s
NoMargin(ls, stars) ==
  TLCEval([i \in 1..Len(ls) |->
     LET l == DropBlanks(ls[i].s) IN
     IF StartsWith(l, stars) THEN [ls[i] EXCEPT !.s = OneBlankLess(SubSeq(l, Len(stars) + 1, Len(l)))] ELSE ls[i]])
(* The blanks all lines but the first and blank ones begin with. *)
IndentOf(s) == SubSeq(s, 1, Len(s) - Len(DropBlanks(s)))
RECURSIVE Shared(_, _)
Shared(a, b) == IF a = "" \/ b = "" THEN "" ELSE IF Ch(a, 1) # Ch(b, 1) THEN ""
                ELSE Ch(a, 1) \o Shared(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
RECURSIVE Common(_, _, _)
Common(ls, i, c) ==
  IF i > Len(ls) THEN IF c = <<>> THEN "" ELSE c[1]
  ELSE IF DropBlanks(ls[i].s) = "" THEN Common(ls, i + 1, c)
  ELSE Common(ls, i + 1, IF c = <<>> THEN <<IndentOf(ls[i].s)>> ELSE <<Shared(c[1], IndentOf(ls[i].s))>>)
Outdent(ls, c) ==
  TLCEval([i \in 1..Len(ls) |-> IF i > 1 /\ StartsWith(ls[i].s, c)
                                THEN [ls[i] EXCEPT !.s = SubSeq(ls[i].s, Len(c) + 1, Len(ls[i].s))] ELSE ls[i]])
DocText(s) ==
  LET t == TrimL(TrimR(s))
      ls == TLCEval(LinesFrom(t, 1)) IN
  CASE t = "" -> ""
  [] Margin(ls, "**") -> JoinLines(NoMargin(ls, "**"), 1)
  [] Margin(ls, "*") -> JoinLines(NoMargin(ls, "*"), 1)
  [] OTHER -> JoinLines(Outdent(ls, Common(ls, 2, <<>>)), 1)
(* A blank comment is no documentation. *)
DocOpt(s) == IF TrimL(s) = "" THEN <<>> ELSE <<DocText(s)>>

(* ------------------------- a unit with its comments -------------------------- *)
DocFor(docs, own) ==
  LET k == {i \in 1..Len(docs) : docs[i].own = own} IN
  IF k = {} THEN <<>> ELSE DocOpt(docs[CHOOSE i \in k : TRUE].s)
DVar(v, D) == [v EXCEPT !.doc = DocFor(D, <<"var", v.id>>)]
DField(f, D) == [f EXCEPT !.doc = DocFor(D, <<"field", f.vars[1].id>>),
                          !.vars = TLCEval([i \in 1..Len(f.vars) |-> DVar(f.vars[i], D)])]
DItem(it, D) ==
  CASE it.k = "import" -> it
  [] it.k = "msg" -> [it EXCEPT !.doc = DocFor(D, <<"decl", it.id>>),
                                !.params = TLCEval([i \in 1..Len(it.params) |-> DField(it.params[i], D)])]
  [] it.k \in {"record", "error"} ->
       [it EXCEPT !.doc = DocFor(D, <<"decl", it.id>>),
                  !.fields = TLCEval([i \in 1..Len(it.fields) |-> DField(it.fields[i], D)])]
  [] OTHER -> [it EXCEPT !.doc = DocFor(D, <<"decl", it.id>>)]
Documented(u, els) ==
  LET r == TLCEval(ReadAll(els)) IN
  [u EXCEPT !.doc = DocFor(r.docs, <<"unit", u.id>>),
            !.items = TLCEval([i \in 1..Len(u.items) |-> DItem(u.items[i], r.docs)])] @@ [strays |-> r.strays]

(* ------------------------------- source text --------------------------------- *)
Spelled(e) == IF "h" \in DOMAIN e THEN [s |-> IF e.h = "doc" THEN "/**" \o e.s \o "*/" ELSE e.s, id |-> e.id]
              ELSE [s |-> e.s \o " ", id |-> 0]
Source(els) == TLCEval([i \in 1..Len(els) |-> Spelled(els[i])])

(* Hidden elements: numbers above 100000 stand for comments. *)
Doc(s, n) == [h |-> "doc", s |-> s, id |-> 100000 + n]
Com(s) == [h |-> "com", s |-> s, id |-> 0]
Ws(s) == [h |-> "ws", s |-> s, id |-> 0]
(* els with the elements hs before its i-th element (or at its end) *)
Insert(els, k, hs) == LET i == IF k > Len(els) + 1 THEN Len(els) + 1 ELSE k IN
                      SubSeq(els, 1, i - 1) \o hs \o SubSeq(els, i, Len(els))

(* Every comment documents something once or is astray once. *)
EachOnce(els) ==
  LET r == TLCEval(ReadAll(els))
      n == {i \in 1..Len(els) : "h" \in DOMAIN els[i] /\ els[i].h = "doc"} IN
  /\ Len(r.docs) + Len(r.strays) = Cardinality(n)
  /\ \A i, k \in 1..Len(r.strays) : r.strays[i] = r.strays[k] => i = k
  /\ \A i, k \in 1..Len(r.docs) : r.docs[i].own = r.docs[k].own => i = k
=============================================================================
