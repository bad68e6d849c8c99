-------------------------------- MODULE Judge --------------------------------
(* Decides whether two documents differ in what a property speaks about.  Both are *)
(* read by the rules of the Avro specification, so equivalent spellings (a         *)
(* namespace repeated, a full name where a short one would do, "scale": 0) agree.  *)
(* A case is [id, prop, form "protocol"|"schema"|"schemata", exp, obs].            *)
EXTENDS AvroSchema, Json, IOUtils

CONSTANT Cases
VARIABLE c

(* ------------------------------ normalisation ------------------------------ *)
(* An unqualified mention that only a type without namespace can satisfy. *)
RECURSIVE Settle(_, _)
SettleF(f, names) == [f EXCEPT !.type = Settle(f.type, names)]
Settle(s, names) ==
  CASE s.t = "ref" -> IF s.full \notin names /\ SimpleOf(s.full) \in names
                      THEN [s EXCEPT !.full = SimpleOf(s.full)] ELSE s
  [] s.t = "def" -> [s EXCEPT !.fields = TLCEval([i \in 1..Len(s.fields) |-> SettleF(s.fields[i], names)])]
  [] s.t \in {"arr", "map"} -> [s EXCEPT !.of = Settle(s.of, names)]
  [] s.t = "uni" -> [s EXCEPT !.of = TLCEval([i \in 1..Len(s.of) |-> Settle(s.of[i], names)])]
  [] OTHER -> s

(* Attributes as a set; a decimal's scale 0 is what its absence means. *)
PropSet(props) ==
  LET p == Extra(props, {}) IN
  {p[i] : i \in {k \in 1..Len(p) :
                 ~(p[k].k = "scale" /\ p[k].v = Int("0") /\ HasStr(p, "logicalType")
                   /\ ValOf(p, "logicalType") = Str("decimal"))}}
LogicalProps == {"logicalType", "precision", "scale"}

(* The aspects a projection keeps. *)
All == {"docs", "props", "logical", "dflts", "aliases", "orders", "syms", "shape"}
Keeps(prop) == CASE prop \in {"C01", "C03", "C05", "C08", "C09"} -> {"shape", "syms"}
               [] prop = "C07" -> {"shape", "dflts"}
               [] prop = "C14" -> {"shape", "props", "logical", "aliases", "orders"}
               [] prop = "C15" -> {"shape", "props", "logical"}
               [] prop = "C16" -> {"shape", "docs"}
               [] prop = "C17" -> {"shape", "dflts", "props", "logical", "syms"}
               [] OTHER -> All

RECURSIVE Proj(_, _)
ProjProps(props, K) ==
  {p \in PropSet(props) : IF p.k \in LogicalProps THEN "logical" \in K ELSE "props" \in K}
ProjF(f, K) == [name |-> f.name, type |-> Proj(f.type, K),
                doc |-> IF "docs" \in K THEN f.doc ELSE <<>>,
                dflt |-> IF "dflts" \in K THEN f.dflt ELSE <<>>,
                order |-> IF "orders" \in K THEN f.order ELSE "",
                aliases |-> IF "aliases" \in K THEN f.aliases ELSE <<>>,
                props |-> ProjProps(f.props, K)]
FullAlias(a, full) == IF IsDotted(a) THEN a ELSE Join(NsOf(full), a)
Proj(s, K) ==
  CASE s.t = "ref" -> [t |-> "ref", full |-> s.full]
  [] s.t = "prim" -> [t |-> "prim", n |-> s.n, props |-> ProjProps(s.props, K)]
  [] s.t \in {"arr", "map"} -> [t |-> s.t, of |-> Proj(s.of, K), props |-> ProjProps(s.props, K)]
  [] s.t = "uni" -> [t |-> "uni", of |-> TLCEval([i \in 1..Len(s.of) |-> Proj(s.of[i], K)])]
  [] OTHER -> [t |-> "def", kind |-> s.kind, full |-> s.full,
               doc |-> IF "docs" \in K THEN s.doc ELSE <<>>,
               aliases |-> IF "aliases" \in K
                           THEN TLCEval([i \in 1..Len(s.aliases) |-> FullAlias(s.aliases[i], s.full)]) ELSE <<>>,
               props |-> ProjProps(s.props, K),
               fields |-> TLCEval([i \in 1..Len(s.fields) |-> ProjF(s.fields[i], K)]),
               syms |-> IF "syms" \in K THEN s.syms ELSE <<>>,
               dflt |-> IF "syms" \in K THEN s.dflt ELSE <<>>,
               size |-> s.size]
ProjM(m, K) ==
  [name |-> m.name, doc |-> IF "docs" \in K THEN m.doc ELSE <<>>,
   props |-> ProjProps(m.props, K),
   request |-> TLCEval([i \in 1..Len(m.request) |-> ProjF(m.request[i], K)]),
   response |-> Proj(m.response, K),
   errors |-> TLCEval([i \in 1..Len(m.errors) |-> TLCEval([k \in 1..Len(m.errors[i]) |-> Proj(m.errors[i][k], K)])]),
   oneway |-> m.oneway]

(* ------------------------------ whole documents ----------------------------- *)
NameSet(defs) == {defs[i].full : i \in 1..Len(defs)}
ProjDefs(defs, K) ==
  LET ns == NameSet(defs) IN
  TLCEval([i \in 1..Len(defs) |-> Proj(Settle(defs[i], ns), K)])
SettleM(m, ns) ==
  [m EXCEPT !.request = TLCEval([i \in 1..Len(m.request) |-> SettleF(m.request[i], ns)]),
            !.response = Settle(m.response, ns),
            !.errors = TLCEval([i \in 1..Len(m.errors) |->
                                TLCEval([k \in 1..Len(m.errors[i]) |-> Settle(m.errors[i][k], ns)])])]
Seq2Set(q) == {q[i] : i \in 1..Len(q)}

DefsOfProto(j) == ReadDefs(j)
MsgsOfProto(j) ==
  LET o == ValOf(j.o, "messages").o IN
  TLCEval([i \in 1..Len(o) |-> ReadMessage(o[i].k, o[i].v, ProtoNs(j.o))])
ProtoProps(j) == Extra(j.o, {"protocol", "namespace", "doc", "types", "messages"})
(* definitions in the order in which they begin *)
OrderOf(acc) == acc.order

ProtoView(j, prop) ==
  LET K == Keeps(prop)
      ds == DefsOfProto(j)
      ms == MsgsOfProto(j)
      ns == NameSet(ds) IN
  [defs |-> IF prop = "C10" THEN {} ELSE Seq2Set(ProjDefs(ds, K)),
   order |-> IF prop \in {"C10", "C12"} THEN <<>>
             ELSE IF prop \in {"C01", "C07", "C14", "C15", "C16", "C17"} THEN <<>> ELSE OrderOf(ScanProtocol(j)),
   top |-> IF prop \in {"C10", "C12", "C01", "C07", "C14", "C15", "C16", "C17"} THEN <<>>
           ELSE TLCEval([i \in 1..Len(ValOf(j.o, "types").a) |->
                  Read(ValOf(j.o, "types").a[i], ProtoNs(j.o)).full]),
   msgs |-> IF prop \in {"C03", "C05", "C08", "C09"} THEN {}
            ELSE {ProjM(ShallowMsg(SettleM(ms[i], ns)), K) : i \in 1..Len(ms)},
   head |-> IF prop \in {"C03", "C05", "C08", "C09", "C10", "C12", "C07"} THEN <<>>
            ELSE <<ValOf(j.o, "protocol"), ProtoNs(j.o),
                   IF "docs" \in K THEN StrOpt(j.o, "doc") ELSE <<>>, ProjProps(ProtoProps(j), K)>>]
SchemaView(j, prop) ==
  LET K == Keeps(prop)
      s == Read(j, "")
      ds == DefsIn(s)
      ns == NameSet(ds) IN
  [main |-> Proj(Settle(Shallow(s), ns), K), defs |-> Seq2Set(ProjDefs(ds, K)),
   order |-> IF prop = "C12" THEN <<>> ELSE OrderOf(ScanSchema(j))]

Readable(j, form) ==
  IF form = "protocol"
  THEN IF j.t # "obj" THEN FALSE
       ELSE /\ HasStr(j.o, "protocol") /\ HasArr(j.o, "types") /\ HasKey(j.o, "messages")
            /\ ValOf(j.o, "messages").t = "obj"
            /\ ~AnyBad(ReadSeq(ValOf(j.o, "types").a, ProtoNs(j.o)))
            /\ ~AnyBad(MsgsOfProto(j))
            /\ ScanProtocol(j).bad = <<>>
  ELSE Read(j, "").t # "bad" /\ ScanSchema(j).bad = <<>>

(* "same" or what is wrong *)
Verdict ==
  CASE c.form = "protocol" ->
         IF ~Readable(c.obs, "protocol") THEN "not a well-formed protocol"
         ELSE IF c.prop = "C02" THEN "same"
         ELSE IF ProtoView(c.exp, c.prop) = ProtoView(c.obs, c.prop) THEN "same" ELSE "differs"
  [] c.form = "schema" ->
         IF ~Readable(c.obs, "schema") THEN "not a well-formed schema"
         ELSE IF c.prop = "C02" THEN "same"
         ELSE IF SchemaView(c.exp, c.prop) = SchemaView(c.obs, c.prop) THEN "same" ELSE "differs"
  [] OTHER ->
         IF \E i \in 1..Len(c.obs) : ~Readable(c.obs[i].j, "schema") THEN "not a well-formed schema"
         ELSE IF c.prop = "C02" THEN "same"
         ELSE IF Len(c.obs) # Len(c.exp) THEN "different number of schemas"
         ELSE IF \E i \in 1..Len(c.obs) : c.obs[i].name # c.exp[i].name THEN "different names or order"
         ELSE IF \A i \in 1..Len(c.obs) : SchemaView(c.exp[i].j, c.prop) = SchemaView(c.obs[i].j, c.prop)
              THEN "same" ELSE "differs"

JudgeCases == ndJsonDeserialize(IOEnv.CASES)
Init == c \in LET cs == TLCEval(Cases) IN {cs[i] : i \in 1..Len(cs)}
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Report == PrintT(<<"CASE", ToJson([id |-> c.id, verdict |-> Verdict])>>)
=============================================================================
