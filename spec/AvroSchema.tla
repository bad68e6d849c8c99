----------------------------- MODULE AvroSchema -----------------------------
(* The schema model, its meaning as JSON under the Avro specification (reading), *)
(* and the documents that define every named type once, in place (emission).     *)
(*                                                                               *)
(*   [t |-> "prim", n, props]       a primitive with its other attributes         *)
(*   [t |-> "ref",  full, loc]      a mention of a named type                     *)
(*   [t |-> "arr", of, props], [t |-> "map", of, props], [t |-> "uni", of]        *)
(*   [t |-> "def", kind, full, doc, aliases, props, fields, syms, dflt, size]     *)
(*   field: [name, type, doc, dflt, order, aliases, props]                        *)
(*   message: [name, doc, props, request, response, errors, oneway]               *)
(* Optional parts are sequences of length 0 or 1.  A logical type is the          *)
(* attributes logicalType, precision and scale: it never changes the base type.   *)
EXTENDS AvroValues

NoLoc == [f |-> 0, id |-> 0]
Prim(n, props) == [t |-> "prim", n |-> n, props |-> props]
Ref(full, loc) == [t |-> "ref", full |-> full, loc |-> loc]
ArrOf(of, props) == [t |-> "arr", of |-> of, props |-> props]
MapOf(of, props) == [t |-> "map", of |-> of, props |-> props]
Uni(of) == [t |-> "uni", of |-> of]
Def(kind, full, doc, aliases, props, fields, syms, dflt, size) ==
  [t |-> "def", kind |-> kind, full |-> full, doc |-> doc, aliases |-> aliases,
   props |-> props, fields |-> fields, syms |-> syms, dflt |-> dflt, size |-> size]

Opt(b, v) == IF b THEN <<v>> ELSE <<>>

(* ------------------------------ the registry ------------------------------ *)
RECURSIVE IdxIn(_, _, _)
IdxIn(reg, full, i) == IF i > Len(reg) THEN 0
                       ELSE IF reg[i].full = full THEN i ELSE IdxIn(reg, full, i + 1)
InReg(reg, full) == IdxIn(reg, full, 1) > 0
Lookup(reg, full) == reg[IdxIn(reg, full, 1)]
Names(reg) == {reg[i].full : i \in 1..Len(reg)}

(* ----------------------------- reading JSON ------------------------------- *)
(* Bad is what is not a schema. *)
Bad == [t |-> "bad"]

StrOpt(o, k) == IF HasStr(o, k) THEN <<ValOf(o, k).s>> ELSE <<>>
StrList(o, k) == IF HasArr(o, k) THEN SelectStrs(ValOf(o, k).a, 1) ELSE <<>>

(* Name of a definition: a dotted name is the full name, otherwise the namespace *)
(* attribute applies, otherwise the enclosing namespace.                         *)
DefFull(o, ctx) ==
  LET n == ValOf(o, "name").s IN
  IF IsDotted(n) THEN Qualify(n, "")
  ELSE Join(IF HasStr(o, "namespace") THEN ValOf(o, "namespace").s ELSE ctx, n)

RECURSIVE Read(_, _), ReadField(_, _)
ReadField(f, ctx) ==
  IF f.t # "obj" \/ ~HasStr(f.o, "name") \/ ~HasKey(f.o, "type") THEN Bad
  ELSE LET ty == Read(ValOf(f.o, "type"), ctx) IN
       IF ty.t = "bad" THEN Bad
       ELSE [t |-> "field", name |-> ValOf(f.o, "name").s, type |-> ty, doc |-> StrOpt(f.o, "doc"),
             dflt |-> Opt(HasKey(f.o, "default"), IF HasKey(f.o, "default") THEN ValOf(f.o, "default") ELSE Null),
             order |-> IF HasStr(f.o, "order") /\ ValOf(f.o, "order").s \in {"descending", "ignore"}
                       THEN ValOf(f.o, "order").s ELSE "",
             aliases |-> StrList(f.o, "aliases"),
             props |-> Extra(f.o, {"name", "type", "doc", "default", "order", "aliases"})]

Read(j, ctx) ==
  CASE j.t = "str" -> IF j.s \in Primitives THEN Prim(j.s, <<>>) ELSE Ref(Qualify(j.s, ctx), NoLoc)
  [] j.t = "arr" ->
       LET bs == TLCEval([i \in 1..Len(j.a) |-> Read(j.a[i], ctx)]) IN
       IF \E i \in 1..Len(bs) : bs[i].t = "bad" THEN Bad ELSE Uni(bs)
  [] j.t = "obj" /\ HasStr(j.o, "type") ->
       LET k == ValOf(j.o, "type").s IN
       CASE k \in {"record", "error", "enum", "fixed"} ->
              IF ~HasStr(j.o, "name") THEN Bad
              ELSE LET full == DefFull(j.o, ctx)
                       common == {"type", "name", "namespace", "doc", "aliases"} IN
              IF ~ValidFull(full) THEN Bad
              ELSE CASE k \in {"record", "error"} ->
                     IF ~HasArr(j.o, "fields") THEN Bad
                     ELSE LET fa == ValOf(j.o, "fields").a
                              fs == TLCEval([i \in 1..Len(fa) |-> ReadField(fa[i], NsOf(full))]) IN
                          IF \E i \in 1..Len(fs) : fs[i].t = "bad" THEN Bad
                          ELSE Def(k, full, StrOpt(j.o, "doc"), StrList(j.o, "aliases"),
                                   Extra(j.o, common \cup {"fields"}), fs, <<>>, <<>>, "")
                [] k = "enum" ->
                     IF ~HasArr(j.o, "symbols") THEN Bad
                     ELSE Def(k, full, StrOpt(j.o, "doc"), StrList(j.o, "aliases"),
                              Extra(j.o, common \cup {"symbols", "default"}), <<>>,
                              StrList(j.o, "symbols"), StrOpt(j.o, "default"), "")
                [] OTHER ->
                     IF ~HasKey(j.o, "size") \/ ValOf(j.o, "size").t # "int" THEN Bad
                     ELSE IF ~IsU32(ValOf(j.o, "size").s) THEN Bad
                     ELSE Def(k, full, StrOpt(j.o, "doc"), StrList(j.o, "aliases"),
                              Extra(j.o, common \cup {"size"}), <<>>, <<>>, <<>>, ValOf(j.o, "size").s)
         [] k = "array" ->
              IF ~HasKey(j.o, "items") THEN Bad
              ELSE LET of == Read(ValOf(j.o, "items"), ctx) IN
                   IF of.t = "bad" THEN Bad ELSE ArrOf(of, Extra(j.o, {"type", "items"}))
         [] k = "map" ->
              IF ~HasKey(j.o, "values") THEN Bad
              ELSE LET of == Read(ValOf(j.o, "values"), ctx) IN
                   IF of.t = "bad" THEN Bad ELSE MapOf(of, Extra(j.o, {"type", "values"}))
         [] k \in Primitives -> Prim(k, Extra(j.o, {"type"}))
         [] OTHER -> Ref(Qualify(k, ctx), NoLoc)
  [] OTHER -> Bad

ReadSeq(a, ctx) == TLCEval([i \in 1..Len(a) |-> Read(a[i], ctx)])
AnyBad(q) == \E i \in 1..Len(q) : q[i].t = "bad"

ReadMessage(name, m, ctx) ==
  IF m.t # "obj" THEN Bad
  ELSE LET req == IF HasArr(m.o, "request")
                  THEN TLCEval([i \in 1..Len(ValOf(m.o, "request").a) |-> ReadField(ValOf(m.o, "request").a[i], ctx)])
                  ELSE <<>>
           res == IF HasKey(m.o, "response") THEN Read(ValOf(m.o, "response"), ctx) ELSE Prim("null", <<>>)
           ers == IF HasArr(m.o, "errors") THEN <<ReadSeq(ValOf(m.o, "errors").a, ctx)>> ELSE <<>> IN
       IF AnyBad(req) \/ res.t = "bad" \/ (ers # <<>> /\ AnyBad(ers[1])) THEN Bad
       ELSE [t |-> "msg", name |-> name, doc |-> StrOpt(m.o, "doc"),
             props |-> Extra(m.o, {"doc", "request", "response", "errors", "one-way"}),
             request |-> req, response |-> res, errors |-> ers,
             oneway |-> HasKey(m.o, "one-way") /\ ValOf(m.o, "one-way") = Bool(TRUE)]

(* Default namespace of a protocol document. *)
ProtoNs(o) == IF HasStr(o, "namespace") THEN ValOf(o, "namespace").s
              ELSE IF HasStr(o, "protocol") THEN NsOf(ValOf(o, "protocol").s) ELSE ""

(* ------------------------------- flattening ------------------------------- *)
(* Definitions inside s, inner ones first, and s with mentions in their place.   *)
RECURSIVE DefsIn(_), Shallow(_), DefsInSeq(_, _)
DefsInSeq(q, i) == IF i > Len(q) THEN <<>> ELSE DefsIn(q[i]) \o DefsInSeq(q, i + 1)
FieldTypes(fs) == TLCEval([i \in 1..Len(fs) |-> fs[i].type])
Shallow(s) ==
  CASE s.t = "def" -> Ref(s.full, NoLoc)
  [] s.t \in {"arr", "map"} -> [s EXCEPT !.of = Shallow(s.of)]
  [] s.t = "uni" -> [s EXCEPT !.of = TLCEval([i \in 1..Len(s.of) |-> Shallow(s.of[i])])]
  [] OTHER -> s
ShallowField(f) == [f EXCEPT !.type = Shallow(f.type)]
DefsIn(s) ==
  CASE s.t = "def" -> DefsInSeq(FieldTypes(s.fields), 1)
                      \o <<[s EXCEPT !.fields = TLCEval([i \in 1..Len(s.fields) |-> ShallowField(s.fields[i])])]>>
  [] s.t \in {"arr", "map"} -> DefsIn(s.of)
  [] s.t = "uni" -> DefsInSeq(s.of, 1)
  [] OTHER -> <<>>
ShallowMsg(m) == [m EXCEPT !.request = TLCEval([i \in 1..Len(m.request) |-> ShallowField(m.request[i])]),
                           !.response = Shallow(m.response),
                           !.errors = TLCEval([i \in 1..Len(m.errors) |->
                                        TLCEval([k \in 1..Len(m.errors[i]) |-> Shallow(m.errors[i][k])])])]
MsgTypes(m) == FieldTypes(m.request) \o <<m.response>> \o (IF m.errors = <<>> THEN <<>> ELSE m.errors[1])

RECURSIVE AddAll(_, _, _)
AddAll(reg, defs, i) == IF i > Len(defs) THEN reg
                        ELSE AddAll(IF InReg(reg, defs[i].full) THEN reg ELSE Append(reg, defs[i]), defs, i + 1)

(* Mentions of named types in reading order: a sequence of [full, loc]. *)
RECURSIVE RefsOf(_), RefsOfSeq(_, _)
RefsOfSeq(q, i) == IF i > Len(q) THEN <<>> ELSE RefsOf(q[i]) \o RefsOfSeq(q, i + 1)
RefsOf(s) ==
  CASE s.t = "ref" -> <<[full |-> s.full, loc |-> s.loc]>>
  [] s.t = "def" -> RefsOfSeq(FieldTypes(s.fields), 1)
  [] s.t \in {"arr", "map"} -> RefsOf(s.of)
  [] s.t = "uni" -> RefsOfSeq(s.of, 1)
  [] OTHER -> <<>>

(* ------------------------------- emission --------------------------------- *)
(* A mention may drop the namespace in force, unless that makes it a keyword.    *)
RefName(full, ctx) == IF NsOf(full) = ctx /\ SimpleOf(full) \notin Primitives \cup ComplexNames
                      THEN SimpleOf(full) ELSE full

RECURSIVE Emit(_, _, _, _), EmitSeq(_, _, _, _, _), EmitFields(_, _, _, _, _)
EmitSeq(q, i, ctx, known, reg) ==
  IF i > Len(q) THEN [js |-> <<>>, known |-> known]
  ELSE LET h == Emit(q[i], ctx, known, reg)
           r == EmitSeq(q, i + 1, ctx, h.known, reg) IN
       [js |-> <<h.j>> \o r.js, known |-> r.known]
FieldObj(f, tj) ==
  Obj(<<P("name", Str(f.name)), P("type", tj)>>
      \o (IF f.doc = <<>> THEN <<>> ELSE <<P("doc", Str(f.doc[1]))>>)
      \o (IF f.dflt = <<>> THEN <<>> ELSE <<P("default", f.dflt[1])>>)
      \o (IF f.order = "" THEN <<>> ELSE <<P("order", Str(f.order))>>)
      \o (IF f.aliases = <<>> THEN <<>> ELSE <<P("aliases", Arr(Map1(Str, f.aliases)))>>)
      \o f.props)
EmitFields(fs, i, ctx, known, reg) ==
  IF i > Len(fs) THEN [js |-> <<>>, known |-> known]
  ELSE LET h == Emit(fs[i].type, ctx, known, reg)
           r == EmitFields(fs, i + 1, ctx, h.known, reg) IN
       [js |-> <<FieldObj(fs[i], h.j)>> \o r.js, known |-> r.known]
AliasName(a, ns) == IF ~IsDotted(a) THEN a ELSE RefName(a, ns)
EmitDef(s, ctx, known, reg) ==
  LET ns == NsOf(s.full)
      k2 == known \cup {s.full}
      fs == EmitFields(s.fields, 1, ns, k2, reg)
      head == <<P("type", Str(s.kind)), P("name", Str(SimpleOf(s.full)))>>
              \o (IF ns = ctx THEN <<>> ELSE <<P("namespace", Str(ns))>>)
              \o (IF s.doc = <<>> THEN <<>> ELSE <<P("doc", Str(s.doc[1]))>>)
      body == CASE s.kind \in {"record", "error"} -> <<P("fields", Arr(fs.js))>>
              [] s.kind = "enum" -> <<P("symbols", Arr(Map1(Str, s.syms)))>>
                                    \o (IF s.dflt = <<>> THEN <<>> ELSE <<P("default", Str(s.dflt[1]))>>)
              [] OTHER -> <<P("size", Int(s.size))>>
      al == IF s.aliases = <<>> THEN <<>>
            ELSE <<P("aliases", Arr(TLCEval([i \in 1..Len(s.aliases) |-> Str(AliasName(s.aliases[i], ns))])))>> IN
  [j |-> Obj(head \o body \o s.props \o al), known |-> fs.known]
Emit(s, ctx, known, reg) ==
  CASE s.t = "prim" -> [j |-> IF s.props = <<>> THEN Str(s.n) ELSE Obj(<<P("type", Str(s.n))>> \o s.props),
                        known |-> known]
  [] s.t = "arr" -> LET e == Emit(s.of, ctx, known, reg) IN
                    [j |-> Obj(<<P("type", Str("array")), P("items", e.j)>> \o s.props), known |-> e.known]
  [] s.t = "map" -> LET e == Emit(s.of, ctx, known, reg) IN
                    [j |-> Obj(<<P("type", Str("map")), P("values", e.j)>> \o s.props), known |-> e.known]
  [] s.t = "uni" -> LET e == EmitSeq(s.of, 1, ctx, known, reg) IN [j |-> Arr(e.js), known |-> e.known]
  [] s.t = "def" -> IF s.full \in known THEN [j |-> Str(RefName(s.full, ctx)), known |-> known]
                    ELSE EmitDef(s, ctx, known, reg)
  [] s.t = "ref" -> IF s.full \in known \/ ~InReg(reg, s.full)
                    THEN [j |-> Str(RefName(s.full, ctx)), known |-> known]
                    ELSE EmitDef(Lookup(reg, s.full), ctx, known, reg)

EmitMsg(m, ctx, known, reg) ==
  LET rq == EmitFields(m.request, 1, ctx, known, reg)
      rs == Emit(m.response, ctx, rq.known, reg)
      er == IF m.errors = <<>> THEN [js |-> <<>>, known |-> rs.known]
            ELSE EmitSeq(m.errors[1], 1, ctx, rs.known, reg) IN
  Obj((IF m.doc = <<>> THEN <<>> ELSE <<P("doc", Str(m.doc[1]))>>)
      \o m.props
      \o <<P("request", Arr(rq.js)), P("response", rs.j)>>
      \o (IF m.errors = <<>> THEN <<>> ELSE <<P("errors", Arr(er.js))>>)
      \o (IF m.oneway THEN <<P("one-way", Bool(TRUE))>> ELSE <<>>))

(* The types of a protocol document: those not defined inside an earlier one. *)
RECURSIVE EmitTypes(_, _, _, _)
EmitTypes(reg, i, ctx, known) ==
  IF i > Len(reg) THEN <<>>
  ELSE IF reg[i].full \in known THEN EmitTypes(reg, i + 1, ctx, known)
  ELSE LET e == EmitDef(reg[i], ctx, known, reg) IN <<e.j>> \o EmitTypes(reg, i + 1, ctx, e.known)

EmitProtocol(name, ns, doc, props, reg, msgs) ==
  Obj(<<P("protocol", Str(name))>>
      \o (IF ns = "" THEN <<>> ELSE <<P("namespace", Str(ns))>>)
      \o (IF doc = <<>> THEN <<>> ELSE <<P("doc", Str(doc[1]))>>)
      \o props
      \o <<P("types", Arr(EmitTypes(reg, 1, ns, {}))),
           P("messages", Obj(TLCEval([i \in 1..Len(msgs) |-> P(msgs[i].name, EmitMsg(msgs[i], ns, Names(reg), reg))])))>>)

(* A self-contained schema document. *)
EmitSchema(s, reg) == Emit(s, "", {}, reg).j

(* --------------------- reading a document in order ------------------------ *)
(* What a reader that follows the Avro specification finds: definitions in order, *)
(* and every defect (a name defined twice, or used before or without definition). *)
(* An undotted mention in a namespace means that namespace's type; a reader falls  *)
(* back to a type without namespace when there is none.                           *)
RECURSIVE Scan(_, _, _), ScanSeq(_, _, _, _)
ScanSeq(q, i, ctx, acc) == IF i > Len(q) THEN acc ELSE ScanSeq(q, i + 1, ctx, Scan(q[i], ctx, acc))
Scan(j, ctx, acc) ==
  CASE j.t = "str" ->
         IF j.s \in Primitives THEN acc
         ELSE LET full == Qualify(j.s, ctx) IN
              IF full \in acc.defined THEN [acc EXCEPT !.refs = Append(@, full)]
              ELSE IF ~IsDotted(j.s) /\ j.s \in acc.defined THEN [acc EXCEPT !.refs = Append(@, j.s)]
              ELSE [acc EXCEPT !.bad = Append(@, j.s)]
  [] j.t = "arr" -> ScanSeq(j.a, 1, ctx, acc)
  [] j.t = "obj" ->
       LET k == ValOf(j.o, "type").s IN
       CASE k \in {"record", "error", "enum", "fixed"} ->
              LET full == DefFull(j.o, ctx)
                  a2 == IF full \in acc.defined THEN [acc EXCEPT !.bad = Append(@, full)]
                        ELSE [acc EXCEPT !.defined = @ \cup {full}, !.order = Append(@, full)] IN
              IF k \in {"record", "error"}
              THEN ScanSeq(TLCEval([i \in 1..Len(ValOf(j.o, "fields").a) |-> ValOf(ValOf(j.o, "fields").a[i].o, "type")]),
                           1, NsOf(full), a2)
              ELSE a2
         [] k = "array" -> Scan(ValOf(j.o, "items"), ctx, acc)
         [] k = "map" -> Scan(ValOf(j.o, "values"), ctx, acc)
         [] OTHER -> acc
  [] OTHER -> [acc EXCEPT !.bad = Append(@, "not a schema")]
NoScan == [defined |-> {}, order |-> <<>>, refs |-> <<>>, bad |-> <<>>]

MsgJsonTypes(m) ==
  LET rq == ValOf(m.o, "request").a IN
  TLCEval([i \in 1..Len(rq) |-> ValOf(rq[i].o, "type")]) \o <<ValOf(m.o, "response")>>
  \o (IF HasKey(m.o, "errors") THEN ValOf(m.o, "errors").a ELSE <<>>)
RECURSIVE ScanMsgs(_, _, _, _)
ScanMsgs(ms, i, ctx, acc) ==
  IF i > Len(ms) THEN acc ELSE ScanMsgs(ms, i + 1, ctx, ScanSeq(MsgJsonTypes(ms[i].v), 1, ctx, acc))
ScanProtocol(j) ==
  LET ns == ProtoNs(j.o) IN
  ScanMsgs(ValOf(j.o, "messages").o, 1, ns, ScanSeq(ValOf(j.o, "types").a, 1, ns, NoScan))
ScanSchema(j) == Scan(j, "", NoScan)

(* The definitions a document means, with every mention by full name. *)
ReadDefs(j) == DefsInSeq(ReadSeq(ValOf(j.o, "types").a, ProtoNs(j.o)), 1)
=============================================================================
