------------------------------ MODULE MC_Sessions ------------------------------
(* Histories of calls on one compiler object: successes, every kind of failure,     *)
(* directories, draining, and files that appear and disappear between calls.        *)
EXTENDS AvdlWorlds

Orph(text, b) == [k |-> "orphan", id |-> b, text |-> text]
Rec(n, b) == DRecord(n, <<>>, <<FField(TPrim("int", b + 10), "f", b + 20)>>, b)
BadEnum(n, b) == DEnum(n, <<>>, <<"A", "A">>, b)
SFiles ==
  <<FIdl(<<"ok.avdl">>, UProto("Ok", <<>>, <<DImport("idl", <<"w.avdl">>, 20), Rec("R", 100), Orph("stray", 300)>>)),        \* 1
    FIdl(<<"w.avdl">>, UBare(<<>>, <<Orph("in w", 20), DImport("idl", <<"v.avdl">>, 30), Rec("W", 100)>>)),                   \* 2
    FIdl(<<"v.avdl">>, UBare(<<>>, <<Rec("V", 100), Orph("in v", 300)>>)),                                                 \* 3
    FIdl(<<"late.avdl">>, UProto("Late", <<>>, <<DImport("idl", <<"w.avdl">>, 20), Rec("W", 100), Orph("in late", 300)>>)),   \* 4
    [FBad(<<"syn.avdl">>) EXCEPT !.text = "protocol P { record { }"],                                                      \* 5
    FIdl(<<"und.avdl">>, UProto("Und", <<>>, <<DRecord("U", <<>>, <<FField(TRef("Nope", 110), "f", 120)>>, 100),
                                               Orph("in und", 300)>>)),                                                    \* 6
    FIdl(<<"miss.avdl">>, UProto("Miss", <<>>, <<Orph("in miss", 10), DImport("idl", <<"v.avdl">>, 20),
                                                 DImport("idl", <<"gone.avdl">>, 30)>>)),                                  \* 7
    FIdl(<<"rule.avdl">>, UProto("Rule", <<>>, <<Orph("in rule", 20), BadEnum("E", 100)>>)),                               \* 8
    FIdl(<<"d", "a.avdl">>, UProto("Da", <<>>, <<Orph("in da", 20), Rec("A", 100)>>)),                                     \* 9
    FIdl(<<"d", "b.avdl">>, UProto("Db", <<>>, <<DImport("idl", <<"..", "v.avdl">>, 10), Orph("in db", 20), Rec("V", 100)>>)), \* 10
    FIdl(<<"d", "c.avdl">>, UProto("Dc", <<>>, <<Orph("in dc", 20), Rec("C", 100)>>)),                                     \* 11
    FIdl(<<"e", "a.avdl">>, UProto("Ea", <<>>, <<Orph("in ea", 20), Rec("A", 100)>>)),                                     \* 12
    FIdl(<<"e", "x", "b.avdl">>, UBare(<<>>, <<Rec("A", 100), Orph("in eb", 300)>>)),                                      \* 13
    FDir(<<"g">>),                                                                                                         \* 14
    [FIdl(<<"gone.avdl">>, UBare(<<>>, <<Rec("G", 100)>>)) EXCEPT !.live = FALSE],                                          \* 15
    FJson(<<"j.avsc">>, Obj(<<P("type", Str("enum")), P("name", Str("J")), P("symbols", Arr(<<Str("S")>>))>>)),            \* 16
    FIdl(<<"js.avdl">>, UProto("Js", <<>>, <<DImport("schema", <<"j.avsc">>, 10), DImport("idl", <<"v.avdl">>, 20),
                                             DRecord("K", <<>>, <<FField(TRef("J", 110), "f", 120)>>, 100)>>)),            \* 17
    FIdl(<<"bare.avdl">>, UBare(<<"n">>, <<Orph("in bare", 20), Rec("B", 100)>>)),                                         \* 18
    FIdl(<<"plain.avdl">>, UBare(<<>>, <<DImport("idl", <<"v.avdl">>, 10), Rec("B", 100)>>)),                              \* 19
    FIdl(<<"below.avdl">>, UProto("Below", <<>>, <<DImport("idl", <<"v.avdl">>, 10),
                                                   DImport("idl", <<"gone.avdl">>, 20), BadEnum("E", 100)>>)),           \* 20
    (* what 3, 16 and 1 become *)
    [FIdl(<<"v.avdl">>, UBare(<<>>, <<Orph("in the other v", 20), Rec("V2", 100), Rec("W", 200)>>)) EXCEPT !.live = FALSE],   \* 21
    [FJson(<<"j.avsc">>, Obj(<<P("type", Str("enum")), P("name", Str("J")), P("symbols", Arr(<<Str("T")>>))>>)) EXCEPT !.live = FALSE], \* 22
    [FIdl(<<"ok.avdl">>, UProto("Ok", <<>>, <<DImport("schema", <<"j.avsc">>, 20), Rec("R2", 100)>>)) EXCEPT !.live = FALSE],  \* 23
    FIdl(<<"lib", "gone.avdl">>, UBare(<<>>, <<Orph("in lib", 20), Rec("G", 100)>>)),                                    \* 24
    FIdl(<<"lib", "v.avdl">>, UBare(<<>>, <<Rec("Lv", 100)>>))>>                                                         \* 25

STables == <<SFiles>>
ASSUME PrintT(<<"CASE", ToJson([tables |-> FileTables])>>)
CSet(on, off) == [op |-> "set", on |-> on, off |-> off]
CStr(i) == [op |-> "str", fi |-> i]
Compiles == {CFile(<<"ok.avdl">>), CFile(<<"late.avdl">>), CFile(<<"syn.avdl">>), CFile(<<"und.avdl">>),
             CFile(<<"miss.avdl">>), CFile(<<"rule.avdl">>), CFile(<<"absent.avdl">>), CStr(9), CFile(<<"js.avdl">>), CFile(<<"below.avdl">>)}
Dirs2 == {CDir(<<"d">>), CDir(<<"e">>), CDir(<<"g">>)}
Others == {CDrain, CSet(<<15>>, <<3>>), CSet(<<21, 22, 23>>, <<3, 16, 1>>), [op |-> "add", path |-> <<"lib">>]}
CallsFor(api) == Compiles \cup Others \cup (IF api = "schemata" THEN Dirs2 ELSE {CFile(<<"bare.avdl">>), CFile(<<"plain.avdl">>)})
Hist(api, deep) == IF deep THEN {<<a, b, c, d>> : a \in CallsFor(api), b \in CallsFor(api), c \in CallsFor(api), d \in {CFile(<<"ok.avdl">>), CFile(<<"js.avdl">>)}}
             ELSE {<<a, b, c>> : a \in CallsFor(api), b \in CallsFor(api), c \in CallsFor(api)}
SessionWorlds(deep) == UNION {{TWorld(api, <<>>, 1, h \o <<CDrain, CDrain>>) : h \in Hist(api, deep)} : api \in {"idl", "schemata"}}
(* Import directories that come to be, with their files, only after they were configured, *)
(* and the order in which they are searched.                                             *)
LateFiles == <<FIdl(<<"m.avdl">>, UProto("M", <<>>, <<DImport("idl", <<"x.avdl">>, 20), Rec("M1", 100)>>)),
               [FIdl(<<"l1", "x.avdl">>, UBare(<<>>, <<Rec("X1", 100), Orph("in l1", 300)>>)) EXCEPT !.live = FALSE],
               [FIdl(<<"l2", "sub", "x.avdl">>, UBare(<<>>, <<Rec("X2", 100)>>)) EXCEPT !.live = FALSE],
               [FIdl(<<"x.avdl">>, UBare(<<>>, <<Rec("X0", 100)>>)) EXCEPT !.live = FALSE]>>
LateCalls == {CFile(<<"m.avdl">>), CStr(1), CSet(<<2>>, <<3>>), CSet(<<3>>, <<2>>), CSet(<<2, 3>>, <<>>), CSet(<<4>>, <<>>), CSet(<<>>, <<2, 4>>),
              [op |-> "add", path |-> <<"l1">>], [op |-> "add", path |-> <<"l2", "sub">>]}
LateHist(deep) == IF deep THEN {<<a, b, c, d>> : a \in LateCalls, b \in LateCalls, c \in LateCalls, d \in {CFile(<<"m.avdl">>), CStr(1)}}
                  ELSE {<<a, b, c>> : a \in LateCalls, b \in LateCalls, c \in LateCalls}
LateDirWorlds(deep) ==
  {MWorld(api, dirs, LateFiles, h \o <<CFile(<<"m.avdl">>), CDrain>>) :
     api \in {"idl", "schemata"}, dirs \in {<<>>, <<<<"l1">>>>, <<<<"l2", "sub">>, <<"l1">>>>}, h \in LateHist(deep)}
=============================================================================
