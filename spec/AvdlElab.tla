------------------------------ MODULE AvdlElab ------------------------------
(* What a parsed Avro IDL file means: the schemas it declares, the rules it breaks *)
(* and the warnings it earns.                                                      *)
(*                                                                                 *)
(* Syntax trees (every node that can be pointed at carries a number "id"; numbers   *)
(* grow in source order):                                                           *)
(*  unit  [form "protocol"|"schema"|"bare", id, doc, annos, ident, ns, main, items] *)
(*  item  [k "import", how, path, id]  [k "record"|"error", ident, doc, annos,      *)
(*        fields, id, nid]  [k "enum", ident, doc, annos, syms, dflt, id, nid]      *)
(*        [k "fixed", ident, doc, annos, size, id, nid]                             *)
(*        [k "msg", ident, doc, annos, ret, params, oneway, throws, id]             *)
(*        [k "orphan", id, text]: a documentation comment between declarations      *)
(*  field [doc, type, vars], var [ident, doc, annos, dflt, id, did], anno [n, v, id] *)
(*  type  [k "prim"|"dec"|"ref"|"arr"|"map"|"uni"|"void", ...], with q (a trailing ?) *)
(* Places: [f, id, at], at = "s" the start of the construct with its annotations,   *)
(* "c" its core token.                                                              *)
EXTENDS AvroDefaults

(* ------------------------------ annotations ------------------------------- *)
SchemaReserved == {"doc", "fields", "items", "name", "namespace", "size", "symbols",
                   "values", "type", "aliases"}
(* kind of place -> attributes with a special meaning there, and forbidden ones *)
SpecialAnnos(kind) == CASE kind = "proto" -> {"namespace"}
                      [] kind \in {"named", "enum"} -> {"namespace", "aliases"}
                      [] kind = "var" -> {"aliases", "order"}
                      [] OTHER -> {}
ReservedAnnos(kind) == CASE kind = "proto" -> {"protocol", "doc", "messages", "types", "errors"}
                       [] kind = "named" -> SchemaReserved
                       [] kind = "enum" -> SchemaReserved \cup {"default"}
                       [] kind = "var" -> {"default", "doc", "name", "type"}
                       [] kind = "msg" -> {"doc", "response", "request", "errors", "one-way"}
                       [] OTHER -> SchemaReserved

UpperOf == [c \in {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s",
                   "t","u","v","w","x","y","z"} |->
            CASE c = "a" -> "A" [] c = "b" -> "B" [] c = "c" -> "C" [] c = "d" -> "D" [] c = "e" -> "E"
            [] c = "f" -> "F" [] c = "g" -> "G" [] c = "h" -> "H" [] c = "i" -> "I" [] c = "j" -> "J"
            [] c = "k" -> "K" [] c = "l" -> "L" [] c = "m" -> "M" [] c = "n" -> "N" [] c = "o" -> "O"
            [] c = "p" -> "P" [] c = "q" -> "Q" [] c = "r" -> "R" [] c = "s" -> "S" [] c = "t" -> "T"
            [] c = "u" -> "U" [] c = "v" -> "V" [] c = "w" -> "W" [] c = "x" -> "X" [] c = "y" -> "Y"
            [] c = "z" -> "Z"]
RECURSIVE Upper(_)
Upper(s) == IF s = "" THEN ""
            ELSE LET c == Ch(s, 1) IN (IF c \in DOMAIN UpperOf THEN UpperOf[c] ELSE c) \o Upper(SubSeq(s, 2, Len(s)))
Orders == {"ASCENDING", "DESCENDING", "IGNORE"}

PairsOf(annos) == TLCEval([i \in 1..Len(annos) |-> P(annos[i].n, annos[i].v)])
PropsOf(annos, kind) == Extra(PairsOf(annos), SpecialAnnos(kind))
AnnoStr(annos, n) == LET p == PairsOf(annos) IN IF HasStr(p, n) THEN <<ValOf(p, n).s>> ELSE <<>>
AliasesOf(annos) == LET p == PairsOf(annos) IN
                    IF HasArr(p, "aliases") THEN SelectStrs(ValOf(p, "aliases").a, 1) ELSE <<>>
OrderOf(annos) == LET o == AnnoStr(annos, "order") IN
                  IF o = <<>> THEN ""
                  ELSE CASE Upper(o[1]) = "DESCENDING" -> "descending"
                       [] Upper(o[1]) = "IGNORE" -> "ignore" [] OTHER -> ""

AnnoBad(a, kind) ==
  CASE a.n \in SpecialAnnos(kind) ->
         CASE a.n = "namespace" -> a.v.t # "str"
         [] a.n = "aliases" -> a.v.t # "arr" \/ \E i \in 1..Len(a.v.a) : a.v.a[i].t # "str"
         [] OTHER -> a.v.t # "str" \/ Upper(a.v.s) \notin Orders
  [] OTHER -> a.n \in ReservedAnnos(kind)

Err(f, id, at, rule) == [f |-> f, id |-> id, at |-> at, rule |-> rule]
(* Integers have 64 bits. *)
RECURSIVE TooBig(_)
TooBig(v) == CASE v.t = "int" -> ~IsInt64(v.s)
             [] v.t = "arr" -> \E i \in 1..Len(v.a) : TooBig(v.a[i])
             [] v.t = "obj" -> \E i \in 1..Len(v.o) : TooBig(v.o[i].v)
             [] OTHER -> FALSE
AnnoErrs(annos, kind, f) ==
  {Err(f, annos[i].id, "any", "integer range") : i \in {k \in 1..Len(annos) : TooBig(annos[k].v)}} \cup
  {Err(f, annos[i].id, "c", "annotation") : i \in {k \in 1..Len(annos) : AnnoBad(annos[k], kind)}}

(* ---------------------------------- types ---------------------------------- *)
LogicalOf(n) == CASE n = "date" -> <<"int", "date">>
                [] n = "time_ms" -> <<"int", "time-millis">>
                [] n = "timestamp_ms" -> <<"long", "timestamp-millis">>
                [] n = "local_timestamp_ms" -> <<"long", "local-timestamp-millis">>
                [] OTHER -> <<"string", "uuid">>
BaseOf(t, ns, f) ==
  CASE t.k = "prim" -> IF t.n \in Primitives THEN Prim(t.n, <<>>)
                       ELSE Prim(LogicalOf(t.n)[1], <<P("logicalType", Str(LogicalOf(t.n)[2]))>>)
  [] t.k = "dec" -> Prim("bytes", <<P("logicalType", Str("decimal")), P("precision", Int(t.p.s)),
                                    P("scale", Int(IF t.s = <<>> THEN "0" ELSE t.s[1].s))>>)
  [] t.k = "ref" -> Ref(Qualify(t.n, ns), [f |-> f, id |-> t.id])
  [] OTHER -> Prim("null", <<>>)                                   \* void

RECURSIVE Ty(_, _, _)
Ty(t, ns, f) ==
  CASE t.k = "arr" -> ArrOf(Ty(t.of, ns, f), PropsOf(t.annos, "type"))
  [] t.k = "map" -> MapOf(Ty(t.of, ns, f), PropsOf(t.annos, "type"))
  [] t.k = "uni" -> Uni(TLCEval([i \in 1..Len(t.of) |-> Ty(t.of[i], ns, f)]))
  [] t.k = "void" -> Prim("null", <<>>)
  [] OTHER -> LET b == BaseOf(t, ns, f)
                  s == IF b.t = "prim" THEN [b EXCEPT !.props = Merge(@, PropsOf(t.annos, "type"))] ELSE b IN
              IF t.q THEN Uni(<<Prim("null", <<>>), s>>) ELSE s

UnionKey(s) == CASE s.t = "prim" -> s.n [] s.t = "arr" -> "array" [] s.t = "map" -> "map"
               [] s.t = "uni" -> "union" [] OTHER -> s.full

FixedByKeyword(t) == BaseOf(t, "", 0).props
(* An annotation may not change what the keyword of a logical type says. *)
Overrides(a, t) == LET b == FixedByKeyword(t) IN HasKey(b, a.n) /\ ValOf(b, a.n) # a.v

RECURSIVE TyErrs(_, _, _)
TyErrs(t, ns, f) ==
  (IF t.k = "void" THEN {} ELSE AnnoErrs(t.annos, "type", f))
  \cup (CASE t.k = "prim" ->
               (IF t.q /\ t.n = "null" THEN {Err(f, t.id, "c", "null?")} ELSE {})
               \cup (IF t.n \notin Primitives /\ \E k \in 1..Len(t.annos) : Overrides(t.annos[k], t)
                     THEN {Err(f, t.id, "s", "override")} ELSE {})
        [] t.k = "dec" ->
               LET pbad == ~IsU32(t.p.s) \/ t.p.s = "0" IN
               (IF pbad THEN {Err(f, t.p.id, "c", "precision")} ELSE {})
               \cup (IF t.s # <<>> /\ (~IsU32(t.s[1].s) \/ (~pbad /\ ~MagLeq(t.s[1].s, t.p.s)))
                     THEN {Err(f, t.s[1].id, "c", "scale")} ELSE {})
               \cup (IF \E k \in 1..Len(t.annos) : Overrides(t.annos[k], t)
                     THEN {Err(f, t.id, "s", "override")} ELSE {})
        [] t.k = "ref" -> IF t.annos # <<>> THEN {Err(f, t.id, "s", "annotated reference")} ELSE {}
        [] t.k \in {"arr", "map"} -> TyErrs(t.of, ns, f)
        [] t.k = "uni" ->
               LET ms == TLCEval([i \in 1..Len(t.of) |-> Ty(t.of[i], ns, f)])
                   nested == {i \in 1..Len(ms) : ms[i].t = "uni"} IN
               UNION {TyErrs(t.of[i], ns, f) : i \in 1..Len(t.of)}
               \cup {Err(f, t.of[i].id, "s", "nested union") : i \in nested}
               \cup {Err(f, t.of[i].id, "s", "duplicate in union") :
                       i \in {k \in (1..Len(ms)) \ nested :
                              \E m \in 1..(k - 1) : UnionKey(ms[m]) = UnionKey(ms[k])}}
        [] OTHER -> {})

(* Warnings: [f, id, at, kind] *)
Warn(f, id, at, kind) == [f |-> f, id |-> id, at |-> at, kind |-> kind]
RECURSIVE Flat(_, _)
Flat(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o Flat(q, i + 1)

AliasWarns(annos, kind, f) ==
  Flat(TLCEval([i \in 1..Len(annos) |->
         IF annos[i].n = "aliases" /\ kind \in {"named", "enum", "var"} /\ annos[i].v.t = "arr"
         THEN Flat(TLCEval([k \in 1..Len(annos[i].v.a) |->
                     LET a == annos[i].v.a[k] IN
                     IF a.t = "str" /\ ~ValidAlias(a.s) THEN <<Warn(f, annos[i].id, "c", "alias")>> ELSE <<>>]), 1)
         ELSE <<>>]), 1)

RECURSIVE TyWarns(_, _)
TyWarns(t, f) ==
  CASE t.k \in {"arr", "map"} -> TyWarns(t.of, f)
  [] t.k = "uni" -> Flat(TLCEval([i \in 1..Len(t.of) |-> TyWarns(t.of[i], f)]), 1)
                    \o (IF t.annos # <<>> THEN <<Warn(f, t.id, "s", "union")>> ELSE <<>>)
  [] OTHER -> <<>>

(* --------------------------------- fields ---------------------------------- *)
IsNullable(t) == t.k \in {"prim", "dec", "ref"} /\ t.q
FieldType(t, dflt, ns, f) ==
  LET s == Ty(t, ns, f) IN
  IF IsNullable(t) /\ dflt # <<>> /\ dflt[1] # Null THEN Uni(<<s.of[2], s.of[1]>>) ELSE s

FieldOf(fd, v, ns, f) ==
  [t |-> "field", name |-> v.ident, type |-> FieldType(fd.type, v.dflt, ns, f),
   doc |-> IF v.doc # <<>> THEN v.doc ELSE fd.doc, dflt |-> v.dflt, order |-> OrderOf(v.annos),
   aliases |-> AliasesOf(v.annos), props |-> PropsOf(v.annos, "var")]
FieldsOf(fds, ns, f) ==
  Flat(TLCEval([i \in 1..Len(fds) |-> TLCEval([k \in 1..Len(fds[i].vars) |-> FieldOf(fds[i], fds[i].vars[k], ns, f)])]), 1)
VarsOf(fds) == Flat(TLCEval([i \in 1..Len(fds) |-> fds[i].vars]), 1)

(* dupAt: where a repeated name is reported *)
FieldErrs(fds, ns, f, dupRule) ==
  LET vs == VarsOf(fds) IN
  UNION {TyErrs(fds[i].type, ns, f) : i \in 1..Len(fds)}
  \cup {Err(f, vs[i].did, "any", "integer range") : i \in {k \in 1..Len(vs) : vs[k].dflt # <<>> /\ TooBig(vs[k].dflt[1])}}
  \cup UNION {AnnoErrs(vs[i].annos, "var", f) : i \in 1..Len(vs)}
  \cup UNION {{Err(f, fds[i].vars[k].did, "c", "default") :
                 k \in {m \in 1..Len(fds[i].vars) :
                        fds[i].vars[m].dflt # <<>> /\
                        ~Valid(fds[i].vars[m].dflt[1], FieldType(fds[i].type, fds[i].vars[m].dflt, ns, f), <<>>, "shallow")}} :
               i \in 1..Len(fds)}
  \cup (IF dupRule = "field"
        THEN {Err(f, vs[i].id, "c", "duplicate field") :
                i \in {k \in 1..Len(vs) : \E m \in 1..(k - 1) : vs[m].ident = vs[k].ident}}
        ELSE {Err(f, fds[i].type.id, "s", "duplicate parameter") :
                i \in {k \in 1..Len(fds) : \E m \in 1..(k - 1) : fds[m].vars[1].ident = fds[k].vars[1].ident}})
FieldWarns(fds, f) ==
  Flat(TLCEval([i \in 1..Len(fds) |-> TyWarns(fds[i].type, f)
          \o Flat(TLCEval([k \in 1..Len(fds[i].vars) |-> AliasWarns(fds[i].vars[k].annos, "var", f)]), 1)]), 1)

(* ------------------------------- declarations ------------------------------ *)
FullOf(ident, annos, ns) ==
  IF IsDotted(ident) THEN Qualify(ident, "")
  ELSE LET a == AnnoStr(annos, "namespace") IN Join(IF a = <<>> THEN ns ELSE a[1], ident)

IsDecl(it) == it.k \in {"record", "error", "enum", "fixed"}
AnnoKind(it) == IF it.k = "enum" THEN "enum" ELSE "named"

(* A comment standing between declarations documents a following declaration or   *)
(* message that has no comment of its own.                                          *)
TakesDoc(it) == IsDecl(it) \/ it.k = "msg"
DocOf(items, i) == IF items[i].doc # <<>> THEN items[i].doc
                   ELSE IF i > 1 /\ items[i - 1].k = "orphan" THEN <<items[i - 1].text>> ELSE <<>>
Orphaned(items, i) == items[i].k = "orphan" /\
  (i = Len(items) \/ ~TakesDoc(items[i + 1]) \/ items[i + 1].doc # <<>>)

DeclOf(items, i, ns, f) ==
  LET it == items[i]
      full == FullOf(it.ident, it.annos, ns)
      props == PropsOf(it.annos, AnnoKind(it))
      al == AliasesOf(it.annos) IN
  CASE it.k \in {"record", "error"} ->
         Def(it.k, full, DocOf(items, i), al, props, FieldsOf(it.fields, NsOf(full), f), <<>>, <<>>, "")
  [] it.k = "enum" ->
         Def("enum", full, DocOf(items, i), al, props, <<>>,
             TLCEval([k \in 1..Len(it.syms) |-> it.syms[k].s]),
             IF it.dflt = <<>> THEN <<>> ELSE <<it.dflt[1].s>>, "")
  [] OTHER -> Def("fixed", full, DocOf(items, i), al, props, <<>>, <<>>, <<>>, it.size.s)

DeclErrs(it, ns, f) ==
  LET full == FullOf(it.ident, it.annos, ns) IN
  AnnoErrs(it.annos, AnnoKind(it), f)
  \cup (IF SimpleOf(full) \in BuiltinTypeNames THEN {Err(f, it.nid, "c", "illegal name")} ELSE {})
  \cup (CASE it.k \in {"record", "error"} -> FieldErrs(it.fields, NsOf(full), f, "field")
        [] it.k = "enum" ->
             {Err(f, it.syms[i].id, "c", "duplicate symbol") :
                i \in {k \in 1..Len(it.syms) : \E m \in 1..(k - 1) : it.syms[m].s = it.syms[k].s}}
             \cup (IF it.dflt # <<>> /\ \A i \in 1..Len(it.syms) : it.syms[i].s # it.dflt[1].s
                   THEN {Err(f, it.dflt[1].id, "c", "enum default")} ELSE {})
        [] OTHER -> IF IsU32(it.size.s) THEN {} ELSE {Err(f, it.size.id, "c", "fixed size")})
DeclWarns(it, f) == AliasWarns(it.annos, AnnoKind(it), f)
                    \o (IF it.k \in {"record", "error"} THEN FieldWarns(it.fields, f) ELSE <<>>)

(* --------------------------------- messages -------------------------------- *)
MsgOf(items, i, ns, f) ==
  LET it == items[i] IN
  [t |-> "msg", name |-> it.ident, doc |-> DocOf(items, i), props |-> PropsOf(it.annos, "msg"),
   request |-> FieldsOf(it.params, ns, f), response |-> Ty(it.ret, ns, f),
   errors |-> IF it.throws = <<>> THEN <<>>
              ELSE <<TLCEval([k \in 1..Len(it.throws) |->
                       Ref(Qualify(it.throws[k].n, ns), [f |-> f, id |-> it.throws[k].id])])>>,
   oneway |-> it.oneway]
MsgErrs(it, ns, f) ==
  AnnoErrs(it.annos, "msg", f) \cup TyErrs(it.ret, ns, f) \cup FieldErrs(it.params, ns, f, "param")
  \cup (IF it.annos # <<>> /\ it.ret.k = "ref" THEN {Err(f, it.id, "s", "annotated reference")} ELSE {})
  \cup (IF it.oneway /\ Ty(it.ret, ns, f) # Prim("null", <<>>) THEN {Err(f, it.id, "s", "one-way")} ELSE {})
MsgWarns(it, f) == TyWarns(it.ret, f) \o FieldWarns(it.params, f)

(* ---------------------------------- files ---------------------------------- *)
(* The namespace in force between the declarations of a file. *)
UnitNs(u) == IF u.form = "protocol"
             THEN IF IsDotted(u.ident) THEN NsOf(Qualify(u.ident, ""))
                  ELSE LET a == AnnoStr(u.annos, "namespace") IN IF a = <<>> THEN "" ELSE a[1]
             ELSE IF u.ns = <<>> THEN "" ELSE u.ns[1]

UnitErrs(u, f) ==
  LET ns == UnitNs(u) IN
  (IF u.form = "protocol"
   THEN AnnoErrs(u.annos, "proto", f)
        \cup (IF SimpleOf(u.ident) \in BuiltinTypeNames THEN {Err(f, u.nid, "c", "illegal name")} ELSE {})
   ELSE {})
  \cup UNION {IF IsDecl(u.items[i]) THEN DeclErrs(u.items[i], ns, f)
              ELSE IF u.items[i].k = "msg" THEN MsgErrs(u.items[i], ns, f) ELSE {} : i \in 1..Len(u.items)}
  \cup (IF u.form = "schema" THEN TyErrs(u.main, ns, f) ELSE {})

(* Misplaced comments first, then the others in the order of the declarations. *)
UnitWarns(u, f) ==
  (IF "strays" \in DOMAIN u                          (* see AvdlDocs *)
   THEN TLCEval([i \in 1..Len(u.strays) |-> Warn(f, u.strays[i], "c", "doc")]) ELSE <<>>) \o
  Flat(TLCEval([i \in 1..Len(u.items) |-> IF Orphaned(u.items, i)
                                  THEN <<Warn(f, u.items[i].id, "c", "doc")>> ELSE <<>>]), 1)
  \o Flat(TLCEval([i \in 1..Len(u.items) |-> IF IsDecl(u.items[i]) THEN DeclWarns(u.items[i], f)
                                     ELSE IF u.items[i].k = "msg" THEN MsgWarns(u.items[i], f) ELSE <<>>]), 1)
  \o (IF u.form = "schema" THEN TyWarns(u.main, f) ELSE <<>>)

UnitMsgs(u, f) ==
  LET ns == UnitNs(u) IN
  Flat(TLCEval([i \in 1..Len(u.items) |-> IF u.items[i].k = "msg" THEN <<MsgOf(u.items, i, ns, f)>> ELSE <<>>]), 1)
=============================================================================
