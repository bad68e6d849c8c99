-------------------------------- MODULE Avdl --------------------------------
(* The compiler as a state machine.                                              *)
(*                                                                               *)
(* A world is a set of files, import directories and a sequence of calls made on  *)
(* one compiler object:                                                           *)
(*  [id, api "idl"|"schemata", dirs <<path>>, files <<file>>, calls <<call>>]     *)
(*  file: [path, kind "idl"|"json"|"bad"|"link"|"dir", u, j, to, live]            *)
(*        kind "bad" is text that cannot be parsed as what it is imported as;       *)
(*        kind "wild" is text whose lexical structure is broken: what is made of   *)
(*        it is left open, except that (noted) it does not pass without a word      *)
(*  call: [op "file", path] | [op "str", fi] | [op "dir", path] | [op "drain"]     *)
(*        | [op "set", on <<fi>>, off <<fi>>]   (files appear and disappear)       *)
(*        | [op "add", path]   (one more import directory)                           *)
(* A path is the sequence of its segments below the root of the world.            *)
EXTENDS AvdlElab, AvdlHints, TLC, Json

CONSTANT Families,    \* how many sets of worlds there are
         Worlds(_),   \* the sets of worlds (an operator, so that TLC makes each once)
         FileTables   \* sequences of files that several worlds share: a world with the
                      \* field fs has the files FileTables[fs]

VARIABLES w,      \* the world
          ci,     \* next call
          live,   \* indices of the files that exist
          acc,    \* warnings kept for draining
          run,    \* the compilation in progress
          outs    \* what the calls returned
vars == <<w, ci, live, acc, run, outs>>

World == w
FilesOf(x) == IF "fs" \in DOMAIN x THEN FileTables[x.fs] ELSE x.files
Files == FilesOf(w)
Idle == [ph |-> "idle"]

(* ------------------------------- file system ------------------------------- *)
Parent(p) == IF p = <<>> THEN <<>> ELSE SubSeq(p, 1, Len(p) - 1)
At(p) == {i \in live : Files[i].path = p}
IsDirPath(p) == p = <<>> \/ (\E i \in At(p) : Files[i].kind = "dir")
                \/ \E i \in live : Len(Files[i].path) > Len(p) /\ SubSeq(Files[i].path, 1, Len(p)) = p
None == <<"/none">>
(* The real path that the segments rest lead to from the real directory cur. *)
RECURSIVE Walk(_, _, _)
Walk(cur, rest, fuel) ==
  IF rest = <<>> THEN cur
  ELSE IF fuel = 0 THEN None
  ELSE LET h == Head(rest)
           p == Append(cur, h)
           links == {i \in At(p) : Files[i].kind = "link"} IN
       CASE h = "." -> Walk(cur, Tail(rest), fuel)
       [] h = ".." -> Walk(Parent(cur), Tail(rest), fuel)
       [] OTHER ->
            IF links # {} THEN LET i == CHOOSE x \in links : TRUE IN
                               Walk(<<>>, Files[i].to \o Tail(rest), fuel - 1)
            ELSE IF IsDirPath(p) THEN Walk(p, Tail(rest), fuel)
            ELSE IF At(p) # {} /\ Tail(rest) = <<>> THEN p
            ELSE None
Real(cur, rest) == Walk(cur, rest, 8)
FileAt(p) == IF p = None \/ IsDirPath(p) THEN 0
             ELSE IF At(p) = {} THEN 0 ELSE CHOOSE i \in At(p) : TRUE

(* The file an import means: beside the importing file, else in the import          *)
(* directories in order.                                                            *)
AddedDirs == LET q == SelectSeq(SubSeq(World.calls, 1, ci - 1), LAMBDA x : x.op = "add") IN [i \in 1..Len(q) |-> q[i].path]
Dirs == World.dirs \o AddedDirs
RECURSIVE InDirs(_, _)
InDirs(k, path) == IF k > Len(Dirs) THEN 0
                   ELSE LET d == Real(<<>>, Dirs[k]) 
                            f == IF d = None THEN 0 ELSE FileAt(Real(d, path)) IN
                        IF f # 0 THEN f ELSE InDirs(k + 1, path)
Resolve(dir, it) == IF it.abs THEN FileAt(Real(<<>>, it.path))
                    ELSE LET f == FileAt(Real(dir, it.path)) IN IF f # 0 THEN f ELSE InDirs(1, it.path)

(* ------------------------- .avdl files of a directory ---------------------- *)
CharOrder == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
RECURSIVE PosOf(_, _)
PosOf(c, i) == IF i > Len(CharOrder) THEN 0 ELSE IF Ch(CharOrder, i) = c THEN i ELSE PosOf(c, i + 1)
RECURSIVE StrLess(_, _)
StrLess(a, b) ==
  IF a = "" \/ b = "" THEN Len(a) < Len(b)
  ELSE LET x == Ch(a, 1) y == Ch(b, 1) IN
       IF x = y THEN StrLess(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
       ELSE PosOf(x, 1) < PosOf(y, 1)
RECURSIVE SortStrs(_)
SortStrs(S) == IF S = {} THEN <<>>
               ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : StrLess(x, y) IN <<m>> \o SortStrs(S \ {m})

EndsWith(s, e) == Len(s) > Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
(* Names in directory d, then the .avdl files below it in the order of their names. *)
Entries(d) == {Files[i].path[Len(d) + 1] : i \in {k \in live : Len(Files[k].path) > Len(d)
                                                  /\ SubSeq(Files[k].path, 1, Len(d)) = d}}
IsLink(p) == \E i \in At(p) : Files[i].kind = "link"
RECURSIVE AvdlBelow(_), AvdlOf(_, _, _)
AvdlOf(d, names, i) ==
  IF i > Len(names) THEN <<>>
  ELSE LET p == Append(d, names[i]) IN
       (IF IsDirPath(p) /\ ~IsLink(p) THEN AvdlBelow(p)
        ELSE IF EndsWith(names[i], ".avdl") /\ FileAt(Real(d, <<names[i]>>)) # 0 THEN <<p>> ELSE <<>>)
       \o AvdlOf(d, names, i + 1)
AvdlBelow(d) == AvdlOf(d, SortStrs(Entries(d)), 1)

(* --------------------------- a compilation: start --------------------------- *)
NoMsgs == <<>>
RECURSIVE MsgIdx(_, _, _)
MsgIdx(ms, n, i) == IF i > Len(ms) THEN 0 ELSE IF ms[i].name = n THEN i ELSE MsgIdx(ms, n, i + 1)
RECURSIVE AddMsgs(_, _, _)
AddMsgs(ms, new, i) ==
  IF i > Len(new) THEN ms
  ELSE LET k == MsgIdx(ms, new[i].name, 1) IN
       AddMsgs(IF k = 0 THEN Append(ms, new[i]) ELSE [ms EXCEPT ![k] = new[i]], new, i + 1)

IsUnit(f) == f # 0 /\ Files[f].kind = "idl"
Frame(f, dir) == [f |-> f, dir |-> dir, k |-> 1]

(* main: index of the main file, dir: its directory, seen: what counts as imported *)
Fresh(main, dir, seen) ==
  [ph |-> "walk", main |-> main, stack |-> <<Frame(main, dir)>>, reg |-> <<>>, msgs |-> NoMsgs,
   warns |-> UnitWarns(Files[main].u, main), errs |-> {}, open |-> FALSE, seen |-> seen, refs |-> <<>>]
Failed(errs, warns) == [ph |-> "failed", errs |-> errs, warns |-> warns, open |-> FALSE]
(* A file that is no unit *)
(* bad: the number of the first token that cannot be where it is; the error is there, *)
(* or at an earlier token that explains it                                            *)
SyntaxErr(f) == IF "bad" \in DOMAIN Files[f] THEN Err(f, 1001 * Files[f].bad, "upto", "syntax") ELSE Err(f, 0, "any", "syntax")
Unreadable(f) == [Failed({SyntaxErr(f)}, <<>>) EXCEPT !.open = Files[f].kind = "wild"]
Start(main, dir, seen) ==
  LET es == UnitErrs(Files[main].u, main) IN
  IF es = {} THEN Fresh(main, dir, seen) ELSE Failed(es, <<>>)
(* Compile the file at a path given to the API. *)
StartPath(p) ==
  LET d == Real(<<>>, Parent(p))
      r == Real(<<>>, p)
      f == FileAt(r) IN
  IF f = 0 THEN Failed({Err(0, 0, "c", "cannot read")}, <<>>)
  ELSE IF ~IsUnit(f) THEN Unreadable(f)
  ELSE Start(f, d, {r})

Call == World.calls[ci]
Begin ==
  /\ run.ph = "idle" /\ ci <= Len(World.calls)
  /\ CASE Call.op = "file" ->
            /\ run' = StartPath(Call.path) @@ [queue |-> <<>>, done |-> <<>>, kept |-> <<>>, op |-> "one"]
            /\ acc' = <<>> /\ UNCHANGED <<live, outs, ci>>
     [] Call.op = "str" ->
            /\ run' = (IF IsUnit(Call.fi) THEN Start(Call.fi, <<>>, {})
                       ELSE Unreadable(Call.fi))
                      @@ [queue |-> <<>>, done |-> <<>>, kept |-> <<>>, op |-> "one"]
            /\ acc' = <<>> /\ UNCHANGED <<live, outs, ci>>
     [] Call.op = "dir" ->
            /\ LET q == AvdlBelow(Real(<<>>, Call.path)) IN
               run' = (IF q = <<>> THEN [ph |-> "linked", out |-> <<>>, warns |-> <<>>] ELSE StartPath(q[1]))
                      @@ [queue |-> IF q = <<>> THEN <<>> ELSE Tail(q), done |-> <<>>, kept |-> <<>>, op |-> "dir"]
            /\ acc' = <<>> /\ UNCHANGED <<live, outs, ci>>
     [] Call.op = "drain" ->
            /\ outs' = Append(outs, [ok |-> TRUE, op |-> "drain", warns |-> acc])
            /\ acc' = <<>> /\ ci' = ci + 1 /\ UNCHANGED <<live, run>>
     [] Call.op = "set" ->
            /\ live' = (live \ {Call.off[i] : i \in 1..Len(Call.off)}) \cup {Call.on[i] : i \in 1..Len(Call.on)}
            /\ outs' = Append(outs, [ok |-> TRUE, op |-> "set"])
            /\ ci' = ci + 1 /\ UNCHANGED <<acc, run>>
     [] Call.op = "add" ->
            /\ outs' = Append(outs, [ok |-> TRUE, op |-> "add"])
            /\ ci' = ci + 1 /\ UNCHANGED <<acc, run, live>>
  /\ UNCHANGED w

(* ------------------------- a compilation: one item -------------------------- *)
Top == run.stack[Len(run.stack)]
TopUnit == Files[Top.f].u
Item == TopUnit.items[Top.k]
Next1(stack) == [stack EXCEPT ![Len(stack)].k = @ + 1]
Fail(errs) == run' = [run EXCEPT !.ph = "failed", !.errs = errs]
Walking == run.ph = "walk" /\ Top.k <= Len(TopUnit.items)
Rest == UNCHANGED <<w, ci, live, acc, outs>>

ImportTarget == Resolve(Top.dir, Item)
TargetReal == Files[ImportTarget].path

(* An import for which there is no file.  Where an error about a directory of that  *)
(* name beside an importing IDL file points is left open.                            *)
OnlyDir == ~Item.abs /\ Item.how = "idl" /\ Real(Top.dir, Item.path) # None /\ IsDirPath(Real(Top.dir, Item.path))
ImportMissing ==
  /\ Walking /\ Item.k = "import" /\ ImportTarget = 0
  /\ Fail({IF OnlyDir THEN Err(0, 0, "c", "cannot read") ELSE Err(Top.f, Item.id, "c", "import not found")})
  /\ Rest
(* A file that was imported before, by any name. *)
ImportAgain ==
  /\ Walking /\ Item.k = "import" /\ ImportTarget # 0 /\ TargetReal \in run.seen
  /\ run' = [run EXCEPT !.stack = Next1(@)]
  /\ Rest
New == Walking /\ Item.k = "import" /\ ImportTarget # 0 /\ TargetReal \notin run.seen
(* Another IDL file: its declarations come here. *)
ImportIdl ==
  /\ New /\ Item.how = "idl"
  /\ IF ~IsUnit(ImportTarget)
     THEN run' = [run EXCEPT !.ph = "failed", !.errs = Unreadable(ImportTarget).errs, !.open = @ \/ Unreadable(ImportTarget).open]
     ELSE LET u == Files[ImportTarget].u
              es == UnitErrs(u, ImportTarget) IN
          IF es # {} THEN Fail(es)
          ELSE run' = [run EXCEPT !.stack = Append(Next1(@), Frame(ImportTarget, Parent(TargetReal))),
                                  !.seen = @ \cup {TargetReal},
                                  !.warns = @ \o UnitWarns(u, ImportTarget)]
  /\ Rest

RECURSIVE RegisterJson(_, _, _)
RegisterJson(reg, ss, i) == IF i > Len(ss) THEN reg ELSE RegisterJson(AddAll(reg, DefsIn(ss[i]), 1), ss, i + 1)

NoJson(rule) == run' = [run EXCEPT !.ph = "failed", !.errs = {Err(Top.f, Item.id, "c", rule)}, !.open = @ \/ Files[ImportTarget].kind = "wild"]
(* A JSON schema file: its named types come here. *)
ImportSchema ==
  /\ New /\ Item.how = "schema"
  /\ LET s == IF Files[ImportTarget].kind = "json" THEN Read(Files[ImportTarget].j, "") ELSE Bad IN
     IF s.t = "bad" THEN NoJson("not a schema")
     ELSE run' = [run EXCEPT !.stack = Next1(@), !.seen = @ \cup {TargetReal},
                             !.reg = AddAll(@, DefsIn(s), 1),
                             !.refs = @ \o RefsOf(Shallow(s))]
  /\ Rest

SortedKeys(o) == SortStrs(Keys(o))
(* A JSON protocol file: its types and messages come here. *)
ImportProtocol ==
  /\ New /\ Item.how = "protocol"
  /\ LET j == Files[ImportTarget].j IN
     IF Files[ImportTarget].kind # "json" THEN NoJson("not a protocol")
     ELSE IF j.t # "obj" THEN Fail({Err(Top.f, Item.id, "c", "not a protocol")})
     ELSE IF ~HasStr(j.o, "protocol") THEN Fail({Err(Top.f, Item.id, "c", "not a protocol")})
     ELSE LET ns == ProtoNs(j.o)
              ts == IF HasArr(j.o, "types") THEN ReadSeq(ValOf(j.o, "types").a, ns) ELSE <<>>
              mo == IF HasKey(j.o, "messages") /\ ValOf(j.o, "messages").t = "obj"
                    THEN ValOf(j.o, "messages").o ELSE <<>>
              ks == SortedKeys(mo)
              ms == TLCEval([i \in 1..Len(ks) |-> ReadMessage(ks[i], ValOf(mo, ks[i]), ns)]) IN
          IF AnyBad(ts) \/ AnyBad(ms) THEN Fail({Err(Top.f, Item.id, "c", "not a protocol")})
          ELSE LET r1 == RegisterJson(run.reg, ts, 1)
                   r2 == RegisterJson(r1, Flat(TLCEval([i \in 1..Len(ms) |-> MsgTypes(ms[i])]), 1), 1)
                   sm == TLCEval([i \in 1..Len(ms) |-> ShallowMsg(ms[i])]) IN
               run' = [run EXCEPT !.stack = Next1(@), !.seen = @ \cup {TargetReal}, !.reg = r2,
                                  !.msgs = AddMsgs(@, sm, 1),
                                  !.refs = @ \o RefsOfSeq(TLCEval([i \in 1..Len(ts) |-> Shallow(ts[i])]), 1)
                                             \o RefsOfSeq(Flat(TLCEval([i \in 1..Len(sm) |-> MsgTypes(sm[i])]), 1), 1)]
  /\ Rest

(* A named type. *)
Declare ==
  /\ Walking /\ IsDecl(Item)
  /\ LET ns == UnitNs(TopUnit)
         d == DeclOf(TopUnit.items, Top.k, ns, Top.f) IN
     IF ~ValidFull(d.full) THEN Fail({Err(Top.f, Item.id, "s", "invalid name")})
     ELSE IF InReg(run.reg, d.full) THEN Fail({Err(Top.f, Item.id, "s", "duplicate name")})
     ELSE LET reg2 == Append(run.reg, d)
              vs == IF Item.k \in {"record", "error"} THEN VarsOf(Item.fields) ELSE <<>>
              verdict == TLCEval([i \in 1..Len(vs) |-> IF vs[i].dflt = <<>> THEN "ok"
                                              ELSE DefaultVerdict(vs[i].dflt[1], d.fields[i].type, reg2)])
              bad == {i \in 1..Len(vs) : verdict[i] = "bad"} IN
          IF bad # {} THEN Fail({Err(Top.f, vs[i].did, "c", "default") : i \in bad})
          ELSE run' = [run EXCEPT !.stack = Next1(@), !.reg = reg2,
                                  !.open = @ \/ \E i \in 1..Len(vs) : verdict[i] = "open"]
  /\ Rest
(* Messages wait for the end of their file; stray comments mean nothing. *)
Pass ==
  /\ Walking /\ Item.k \in {"msg", "orphan"}
  /\ run' = [run EXCEPT !.stack = Next1(@)]
  /\ Rest
(* The end of a file: its own messages win over those of its imports. *)
EndFile ==
  /\ run.ph = "walk" /\ Top.k > Len(TopUnit.items)
  /\ LET ms == AddMsgs(run.msgs, IF TopUnit.form = "protocol" THEN UnitMsgs(TopUnit, Top.f) ELSE <<>>, 1)
         st == SubSeq(run.stack, 1, Len(run.stack) - 1) IN
     run' = [run EXCEPT !.msgs = ms, !.stack = st, !.ph = IF st = <<>> THEN "link" ELSE "walk"]
  /\ Rest

(* --------------------------- a compilation: the end -------------------------- *)
MainUnit == Files[run.main].u
MainNs == UnitNs(MainUnit)
MainSchema == Ty(MainUnit.main, MainNs, run.main)

MsgRefs(ms) == Flat(TLCEval([i \in 1..Len(ms) |-> RefsOfSeq(MsgTypes(ms[i]), 1)]), 1)
AllRefs == Flat(TLCEval([i \in 1..Len(run.reg) |-> RefsOf(run.reg[i])]), 1) \o run.refs
           \o (IF MainUnit.form = "protocol" THEN MsgRefs(run.msgs) ELSE <<>>)
           \o (IF MainUnit.form = "schema" THEN RefsOf(MainSchema) ELSE <<>>)
(* Undefined names: each with the places in IDL files where it is first mentioned. *)
Undefined ==
  LET rs == AllRefs
      bad == {i \in 1..Len(rs) : ~InReg(run.reg, rs[i].full)}
      names == {rs[i].full : i \in bad} IN
  {[name |-> n,
    locs |-> {rs[i].loc : i \in {k \in bad : rs[k].full = n /\ rs[k].loc.f # 0
                                  /\ \A m \in bad : rs[m].full = n /\ rs[m].loc.f = rs[k].loc.f
                                                    => rs[m].loc.id >= rs[k].loc.id}},
    near |-> IF "hints" \in DOMAIN World THEN HintedNames(n, {run.reg[i].full : i \in 1..Len(run.reg)}) ELSE {}] : n \in names}

Document ==
  IF MainUnit.form = "protocol"
  THEN EmitProtocol(SimpleOf(MainUnit.ident), MainNs, MainUnit.doc, PropsOf(MainUnit.annos, "proto"),
                    run.reg, run.msgs)
  ELSE EmitSchema(MainSchema, run.reg)
Schemata == TLCEval([i \in 1..Len(run.reg) |->
              [name |-> SimpleOf(run.reg[i].full),
               j |-> EmitSchema(Ref(run.reg[i].full, NoLoc), run.reg)]])

Link ==
  /\ run.ph = "link"
  /\ LET und == Undefined IN
     IF und # {}
     THEN run' = [ph |-> "failed", errs |-> {}, und |-> und, warns |-> run.warns, open |-> run.open,
                  queue |-> run.queue, done |-> run.done, kept |-> run.kept, op |-> run.op]
     ELSE IF World.api = "idl" /\ MainUnit.form = "bare"
     THEN Fail({Err(run.main, 0, "start", "neither protocol nor schema")})
     ELSE run' = [run EXCEPT !.ph = "linked"] @@
                 [out |-> IF World.api = "idl" THEN Document ELSE Schemata,
                  form |-> IF World.api = "idl" THEN MainUnit.form ELSE "schemata"]
  /\ Rest

(* The call returns, or goes on with the next file of the directory. *)
Return ==
  /\ run.ph \in {"linked", "failed"}
  /\ IF run.ph = "failed"
     THEN /\ outs' = Append(outs, [ok |-> FALSE, op |-> "compile", errs |-> run.errs, open |-> run.open,
                                   und |-> IF "und" \in DOMAIN run THEN run.und ELSE {}])
          /\ acc' = run.kept \o run.warns /\ run' = Idle /\ ci' = ci + 1
     ELSE IF run.op = "dir" /\ run.queue # <<>>
     THEN /\ run' = StartPath(run.queue[1]) @@
                    [queue |-> Tail(run.queue), done |-> run.done \o run.out,
                     kept |-> run.kept \o run.warns, op |-> "dir"]
          /\ UNCHANGED <<outs, acc, ci>>
     ELSE /\ outs' = Append(outs, [ok |-> TRUE, op |-> "compile",
                                   out |-> IF World.api = "idl" THEN run.out ELSE run.done \o run.out,
                                   form |-> IF World.api = "idl" THEN run.form ELSE "schemata",
                                   open |-> "open" \in DOMAIN run /\ run.open,
                                   warns |-> run.kept \o run.warns])
          /\ acc' = <<>> /\ run' = Idle /\ ci' = ci + 1
  /\ UNCHANGED <<w, live>>

Init == /\ \E k \in 1..Families : w \in Worlds(k)
        /\ ci = 1 /\ acc = <<>> /\ run = Idle /\ outs = <<>>
        /\ live = {i \in 1..Len(Files) : Files[i].live}
(* All calls have returned; nothing else may stop. *)
Done == run.ph = "idle" /\ ci > Len(World.calls) /\ UNCHANGED vars
Next == Done \/ Begin \/ ImportMissing \/ ImportAgain \/ ImportIdl \/ ImportSchema \/ ImportProtocol
        \/ Declare \/ Pass \/ EndFile \/ Link \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finished == run.ph = "idle" /\ ci > Len(World.calls)
(* Every history of calls comes to its end (that nothing gets stuck before is TLC's *)
(* own check for deadlocks).                                                        *)
Terminates == <>[]Finished
=============================================================================
