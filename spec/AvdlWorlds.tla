------------------------------ MODULE AvdlWorlds ------------------------------
(* Constructors for small worlds, the properties every world must have at its end,  *)
(* and the report from which worlds are replayed in the implementation.             *)
EXTENDS Avdl

(* ------------------------------- constructors ------------------------------- *)
(* b: the first number an item may use; an item uses fewer than 100. *)
TPrim(n, b) == [k |-> "prim", n |-> n, q |-> FALSE, annos |-> <<>>, id |-> b]
TRef(n, b) == [k |-> "ref", n |-> n, q |-> FALSE, annos |-> <<>>, id |-> b]
TRefQ(n, b) == [k |-> "ref", n |-> n, q |-> TRUE, annos |-> <<>>, id |-> b]
TArr(t, b) == [k |-> "arr", of |-> t, annos |-> <<>>, id |-> b]
TMap(t, b) == [k |-> "map", of |-> t, annos |-> <<>>, id |-> b]
TUni(ts, b) == [k |-> "uni", of |-> ts, annos |-> <<>>, id |-> b]
TVoid(b) == [k |-> "void", id |-> b]
(* A mention of n in the position pos. *)
Mention(n, pos, b) ==
  CASE pos = "plain" -> TRef(n, b)
  [] pos = "opt" -> TRefQ(n, b)
  [] pos = "arr" -> TArr(TRef(n, b + 1), b)
  [] pos = "map" -> TMap(TRef(n, b + 1), b)
  [] pos = "uni" -> TUni(<<TPrim("null", b + 1), TRef(n, b + 2)>>, b)
  [] OTHER -> TArr(TUni(<<TPrim("int", b + 2), TMap(TRef(n, b + 4), b + 3)>>, b + 1), b)

FVar(ident, dflt, b) == [ident |-> ident, doc |-> <<>>, annos |-> <<>>, dflt |-> dflt, id |-> b, did |-> b + 1]
FField(type, ident, b) == [doc |-> <<>>, type |-> type, vars |-> <<FVar(ident, <<>>, b)>>]
FFieldD(type, ident, dflt, b) == [doc |-> <<>>, type |-> type, vars |-> <<FVar(ident, dflt, b)>>]
NsAnno(ns, b) == [n |-> "namespace", v |-> Str(ns), id |-> b]
(* annos: sequence of annotations numbered below b + 5 *)
DRecord(ident, annos, fields, b) ==
  [k |-> "record", ident |-> ident, doc |-> <<>>, annos |-> annos, fields |-> fields, id |-> b + 5, nid |-> b + 6]
DEnum(ident, annos, syms, b) ==
  [k |-> "enum", ident |-> ident, doc |-> <<>>, annos |-> annos,
   syms |-> TLCEval([i \in 1..Len(syms) |-> [s |-> syms[i], id |-> b + 6 + i]]), dflt |-> <<>>,
   id |-> b + 5, nid |-> b + 6]
DFixed(ident, annos, size, b) ==
  [k |-> "fixed", ident |-> ident, doc |-> <<>>, annos |-> annos, size |-> [s |-> size, id |-> b + 7],
   id |-> b + 5, nid |-> b + 6]
DMsg(ident, ret, params, throws, oneway, b) ==
  [k |-> "msg", ident |-> ident, doc |-> <<>>, annos |-> <<>>, ret |-> ret, params |-> params,
   throws |-> throws, oneway |-> oneway, id |-> b]
DImport(how, path, b) == [k |-> "import", how |-> how, path |-> path, abs |-> FALSE, id |-> b]
UProto(ident, annos, items) ==
  [form |-> "protocol", id |-> 5, nid |-> 6, doc |-> <<>>, annos |-> annos, ident |-> ident, ns |-> <<>>,
   main |-> TVoid(0), items |-> items]
UBare(ns, items) ==
  [form |-> "bare", id |-> 5, nid |-> 6, doc |-> <<>>, annos |-> <<>>, ident |-> "", ns |-> ns,
   main |-> TVoid(0), items |-> items]
USchema(ns, main, items) ==
  [form |-> "schema", id |-> 5, nid |-> 6, doc |-> <<>>, annos |-> <<>>, ident |-> "", ns |-> ns,
   main |-> main, items |-> items]
FIdl(path, u) == [path |-> path, kind |-> "idl", u |-> u, j |-> Null, to |-> <<>>, live |-> TRUE]
FJson(path, j) == [path |-> path, kind |-> "json", u |-> UBare(<<>>, <<>>), j |-> j, to |-> <<>>, live |-> TRUE]
FBad(path) == [path |-> path, kind |-> "bad", u |-> UBare(<<>>, <<>>), j |-> Null, to |-> <<>>, live |-> TRUE,
               text |-> "protocol P { record { }"]
(* text that is no text of the language: token i cannot be where it is *)
FBadAt(path, i) == FBad(path) @@ [bad |-> i]
(* noted: it must not pass without an error or a warning *)
FWild(path, noted) == [path |-> path, kind |-> "wild", u |-> UBare(<<>>, <<>>), j |-> Null, to |-> <<>>, live |-> TRUE, noted |-> noted]
(* broken: its first character that no lexeme begins with *)
FBroken(path, i) == FWild(path, TRUE) @@ [broken |-> i]
FDir(path) == [path |-> path, kind |-> "dir", u |-> UBare(<<>>, <<>>), j |-> Null, to |-> <<>>, live |-> TRUE]
FLink(path, to) == [path |-> path, kind |-> "link", u |-> UBare(<<>>, <<>>), j |-> Null, to |-> to, live |-> TRUE]
CFile(path) == [op |-> "file", path |-> path]
CDir(path) == [op |-> "dir", path |-> path]
CDrain == [op |-> "drain"]
(* a world whose files are FileTables[fs] *)
TWorld(api, dirs, fs, calls) == [id |-> 0, api |-> api, dirs |-> dirs, fs |-> fs, calls |-> calls]
NoTables == <<>>
MWorld(api, dirs, files, calls) == [id |-> 0, api |-> api, dirs |-> dirs, files |-> files, calls |-> calls]

(* --------------------------------- properties -------------------------------- *)
Docs == {i \in 1..Len(outs) : outs[i].op = "compile" /\ outs[i].ok}

(* Every document is complete and defines each type once, before its use.          *)
DocsWellFormed == Finished =>
  \A i \in Docs :
    IF w.api = "schemata"
    THEN \A k \in 1..Len(outs[i].out) : ScanSchema(outs[i].out[k].j).bad = <<>>
    ELSE LET d == outs[i].out IN
         IF outs[i].form = "protocol" THEN ScanProtocol(d).bad = <<>> ELSE ScanSchema(d).bad = <<>>

(* Full names never repeat in the registry. *)
RegistryUnique == "reg" \in DOMAIN run =>
  \A i, k \in 1..Len(run.reg) : run.reg[i].full = run.reg[k].full => i = k
(* The registry only grows, at its end. *)
RegistryGrows == [][("reg" \in DOMAIN run /\ "reg" \in DOMAIN run') =>
                     (run.done = run'.done =>
                       SubSeq(run'.reg, 1, Len(run.reg)) = run.reg)]_vars
(* No file is entered twice in one compilation. *)
StackDistinct == "stack" \in DOMAIN run =>
  \A i, k \in 1..Len(run.stack) : run.stack[i].f = run.stack[k].f => i = k

(* Reading the protocol document back gives the registered types, all of them, and *)
(* the messages: nothing is lost or invented by emission.                          *)
SameType(a, b) == a = b
RECURSIVE Plain(_, _)
PlainF(f, names) == [f EXCEPT !.type = Plain(f.type, names), !.props = Extra(f.props, {})]
Plain(s, names) ==
  CASE s.t = "ref" -> [t |-> "ref", full |-> IF s.full \notin names /\ SimpleOf(s.full) \in names
                                             THEN SimpleOf(s.full) ELSE s.full]
  [] s.t = "def" -> [s EXCEPT !.fields = TLCEval([i \in 1..Len(s.fields) |-> PlainF(s.fields[i], names)]),
                              !.aliases = <<>>]
  [] s.t \in {"arr", "map"} -> [s EXCEPT !.of = Plain(s.of, names)]
  [] s.t = "uni" -> [s EXCEPT !.of = TLCEval([i \in 1..Len(s.of) |-> Plain(s.of[i], names)])]
  [] OTHER -> s
(* The format has no way to mention a type without namespace from within a           *)
(* namespace that has a type of the same simple name.                                *)
Ambiguous == \E a, b \in Names(run.reg) : NsOf(a) = "" /\ NsOf(b) # "" /\ SimpleOf(b) = a
EmissionFaithful == (run.ph = "linked" /\ w.api = "idl") =>
  ((MainUnit.form = "protocol" /\ ~Ambiguous) =>
     LET ds == ReadDefs(run.out)
         ns == Names(run.reg) IN
     /\ Len(ds) = Len(run.reg)
     /\ {Plain(ds[i], ns) : i \in 1..Len(ds)} = {Plain(run.reg[i], ns) : i \in 1..Len(run.reg)}
     /\ Keys(ValOf(run.out.o, "messages").o) = {run.msgs[i].name : i \in 1..Len(run.msgs)})

(* Importing the document again gives the same types. *)
Reimported(j) == RegisterJson(<<>>, ReadSeq(ValOf(j.o, "types").a, ProtoNs(j.o)), 1)
ReimportSame == (run.ph = "linked" /\ w.api = "idl") =>
  ((MainUnit.form = "protocol" /\ ~Ambiguous) =>
     LET r == Reimported(run.out)
         ns == Names(run.reg) IN
     /\ Names(r) = ns
     /\ {Plain(r[i], ns) : i \in 1..Len(r)} = {Plain(run.reg[i], ns) : i \in 1..Len(run.reg)})

(* Extraction gives each type once, in registration order. *)
ExtractionComplete == (run.ph = "linked" /\ w.api = "schemata" /\ "reg" \in DOMAIN run) =>
  /\ Len(run.out) = Len(run.reg)
  /\ \A i \in 1..Len(run.out) : LET s == Read(run.out[i].j, "") IN
        s.t = "def" /\ s.full = run.reg[i].full

(* Undefined names are reported exactly when some mention is not registered, and a *)
(* compilation that returns a document has none.                                   *)
NothingUndefined == (run.ph = "linked" /\ "reg" \in DOMAIN run) =>
  \A i \in 1..Len(run.reg) : \A k \in 1..Len(RefsOf(run.reg[i])) : InReg(run.reg, RefsOf(run.reg[i])[k].full)

(* Kept warnings exist only after a failure. *)
WarningsKept == (acc # <<>>) => \E i \in 1..Len(outs) : ~outs[i].ok
TypeInv == /\ ci \in 1..(Len(w.calls) + 1)
           /\ Len(outs) = ci - 1
           /\ live \subseteq 1..Len(Files)

Report == Finished => PrintT(<<"CASE", ToJson([w |-> w, outs |-> outs])>>)
=============================================================================
