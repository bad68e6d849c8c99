------------------------------ MODULE AvdlSyntax ------------------------------
(* The concrete syntax of a unit: its tokens in order, and of which construct a token *)
(* is the first one (that is where a documentation comment for it may stand).         *)
(* A token is [s, own]; own is <<>> or <<kind, number>>, kind "unit", "decl", "field"  *)
(* or "var".                                                                           *)
EXTENDS AvdlElab

NoOwner == <<>>
T(s) == <<[s |-> s, own |-> NoOwner]>>
(* a name, which may be written between backquotes *)
I(s) == <<[s |-> s, own |-> NoOwner, nm |-> TRUE]>>
(* Give the first token of q an owner. *)
Own(q, o) == <<[q[1] EXCEPT !.own = o]>> \o Tail(q)

RECURSIVE Sep(_, _, _)
(* the token sequences of qs with the token sep between them *)
Sep(qs, sep, i) == IF i > Len(qs) THEN <<>>
                   ELSE qs[i] \o (IF i = Len(qs) THEN <<>> ELSE T(sep)) \o Sep(qs, sep, i + 1)

RECURSIVE PVal(_)
PVal(v) ==
  CASE v.t = "null" -> T("null")
  [] v.t = "bool" -> T(IF v.b THEN "true" ELSE "false")
  [] v.t \in {"int", "flt"} -> T(v.s)
  [] v.t = "str" -> T("\"" \o v.s \o "\"")
  [] v.t = "arr" -> T("[") \o Sep(TLCEval([i \in 1..Len(v.a) |-> PVal(v.a[i])]), ",", 1) \o T("]")
  [] OTHER -> T("{") \o Sep(TLCEval([i \in 1..Len(v.o) |-> T("\"" \o v.o[i].k \o "\"") \o T(":") \o PVal(v.o[i].v)]), ",", 1) \o T("}")
PAnnos(annos) ==
  Flat(TLCEval([i \in 1..Len(annos) |-> T("@") \o I(annos[i].n) \o T("(") \o PVal(annos[i].v) \o T(")")]), 1)
RECURSIVE PTy(_)
PTy(t) ==
  CASE t.k = "void" -> T("void")
  [] t.k = "arr" -> PAnnos(t.annos) \o T("array") \o T("<") \o PTy(t.of) \o T(">")
  [] t.k = "map" -> PAnnos(t.annos) \o T("map") \o T("<") \o PTy(t.of) \o T(">")
  [] t.k = "uni" -> PAnnos(t.annos) \o T("union") \o T("{") \o Sep(TLCEval([i \in 1..Len(t.of) |-> PTy(t.of[i])]), ",", 1) \o T("}")
  [] t.k = "dec" -> PAnnos(t.annos) \o T("decimal") \o T("(") \o T(t.p.s)
                    \o (IF t.s = <<>> THEN <<>> ELSE T(",") \o T(t.s[1].s)) \o T(")") \o (IF t.q THEN T("?") ELSE <<>>)
  [] OTHER -> PAnnos(t.annos) \o (IF t.k = "ref" THEN I(t.n) ELSE T(t.n)) \o (IF t.q THEN T("?") ELSE <<>>)
PVar(v) == Own(PAnnos(v.annos) \o I(v.ident), <<"var", v.id>>)
           \o (IF v.dflt = <<>> THEN <<>> ELSE T("=") \o PVal(v.dflt[1]))
PField(f) == Own(PTy(f.type), <<"field", f.vars[1].id>>)
             \o Sep(TLCEval([i \in 1..Len(f.vars) |-> PVar(f.vars[i])]), ",", 1)
PItem(it) ==
  CASE it.k = "import" -> T("import") \o T(it.how) \o T("\"" \o it.path[1] \o "\"") \o T(";")
  [] it.k = "msg" ->
       Own(PAnnos(it.annos) \o PTy(it.ret), <<"decl", it.id>>) \o I(it.ident) \o T("(")
       \o Sep(TLCEval([i \in 1..Len(it.params) |-> PField(it.params[i])]), ",", 1) \o T(")")
       \o (IF it.oneway THEN T("oneway") ELSE <<>>)
       \o (IF it.throws = <<>> THEN <<>>
           ELSE T("throws") \o Sep(TLCEval([i \in 1..Len(it.throws) |-> I(it.throws[i].n)]), ",", 1))
       \o T(";")
  [] OTHER ->
       Own(PAnnos(it.annos) \o T(it.k), <<"decl", it.id>>) \o I(it.ident)
       \o (CASE it.k = "enum" ->
                  T("{") \o Sep(TLCEval([i \in 1..Len(it.syms) |-> I(it.syms[i].s)]), ",", 1) \o T("}")
                  \o (IF it.dflt = <<>> THEN <<>> ELSE T("=") \o I(it.dflt[1].s) \o T(";"))
             [] it.k = "fixed" -> T("(") \o T(it.size.s) \o T(")") \o T(";")
             [] OTHER -> T("{") \o Flat(TLCEval([i \in 1..Len(it.fields) |-> PField(it.fields[i]) \o T(";")]), 1) \o T("}"))
PItems(items) == Flat(TLCEval([i \in 1..Len(items) |-> PItem(items[i])]), 1)
PUnit(u) ==
  IF u.form = "protocol"
  THEN Own(PAnnos(u.annos) \o T("protocol"), <<"unit", u.id>>) \o I(u.ident) \o T("{") \o PItems(u.items) \o T("}")
  ELSE (IF u.ns = <<>> THEN <<>> ELSE T("namespace") \o I(u.ns[1]) \o T(";"))
       \o (IF u.form = "schema" THEN T("schema") \o PTy(u.main) \o T(";") ELSE <<>>)
       \o PItems(u.items)
=============================================================================
