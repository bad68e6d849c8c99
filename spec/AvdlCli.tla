------------------------------- MODULE AvdlCli -------------------------------
(* The command line as a state machine around the compiler's: reading the           *)
(* arguments, compiling, writing.  A world has further                               *)
(*  cli: [args "ok"|"nocmd"|"cmd"|"option"|"noinput"|"novalue", out <<>>|<<path>>,    *)
(*        dash (whether "-" stands for the output), sink "pipe"|"full",               *)
(*        again "no"|"same"|"longer"|"shorter"|"other": whether the same is run once  *)
(*        more, and what became of the files written in between]                      *)
(* its one call is what is compiled.  What is there before are the world's files.     *)
EXTENDS AvdlWorlds

VARIABLES cp,     \* "args", "compile", "write", "exit"
          disk,   \* what was written: <<real path, document>>, in order
          made,   \* directories made
          sout,   \* documents printed
          last,   \* what the run before this one wrote
          code    \* <<>> or the exit status: 0, 1 (or 2: some other number than 0)
cvars == <<cp, disk, made, sout, last, code>>

Cli == w.cli
Exit(n) == cp' = "exit" /\ code' = <<n>> /\ UNCHANGED last

(* ------------------------------ writing to disk ------------------------------ *)
IsMade(p) == \E i \in 1..Len(made) : made[i] = p
Dir(p) == IsDirPath(p) \/ IsMade(p)
(* where a relative path leads once the directories made are counted *)
RECURSIVE Lead(_, _, _)
Lead(cur, rest, fuel) ==
  IF rest = <<>> THEN cur ELSE IF fuel = 0 THEN None
  ELSE LET p == Append(cur, rest[1])
           links == {i \in At(p) : Files[i].kind = "link"} IN
       CASE rest[1] = "." -> Lead(cur, Tail(rest), fuel)
       [] rest[1] = ".." -> Lead(Parent(cur), Tail(rest), fuel)
       [] links # {} -> LET i == CHOOSE x \in links : TRUE IN Lead(<<>>, Files[i].to \o Tail(rest), fuel - 1)
       [] Dir(p) -> Lead(p, Tail(rest), fuel)
       [] Tail(rest) = <<>> -> p
       [] OTHER -> None
Target(path) == Lead(<<>>, path, 8)
(* A file can be put where no directory is, in a directory. *)
Writable(path) == LET t == Target(path) IN t # None /\ ~Dir(t) /\ Dir(Parent(t))
(* The directories to make for a path, outermost first; or <<None>> if a file is in the way. *)
RECURSIVE ToMake(_, _, _)
ToMake(cur, rest, acc0) ==
  IF rest = <<>> THEN acc0
  ELSE LET p == Append(cur, rest[1])
           links == {i \in At(p) : Files[i].kind = "link"} IN
       CASE rest[1] = "." -> ToMake(cur, Tail(rest), acc0)
       [] rest[1] = ".." -> ToMake(Parent(cur), Tail(rest), acc0)
       [] links # {} -> LET t == Target(<<>> \o p) IN IF t # None /\ Dir(t) THEN ToMake(t, Tail(rest), acc0) ELSE <<None>>
       [] Dir(p) \/ (\E i \in 1..Len(acc0) : acc0[i] = p) -> ToMake(p, Tail(rest), acc0)
       [] At(p) # {} -> <<None>>
       [] OTHER -> ToMake(p, Tail(rest), Append(acc0, p))

(* --------------------------------- the steps --------------------------------- *)
(* Arguments that are no command: nothing is compiled. *)
Refuse == /\ cp = "args" /\ Cli.args # "ok" /\ Exit(2) /\ UNCHANGED <<vars, disk, made, sout>>
Accept == /\ cp = "args" /\ Cli.args = "ok" /\ cp' = "compile" /\ UNCHANGED <<vars, disk, made, sout, last, code>>
Compile == /\ cp = "compile" /\ ~Finished /\ Next /\ UNCHANGED cvars
Failure == /\ cp = "compile" /\ Finished /\ ~outs[1].ok /\ Exit(1) /\ UNCHANGED <<vars, disk, made, sout>>
Compiled == /\ cp = "compile" /\ Finished /\ outs[1].ok /\ cp' = "write" /\ UNCHANGED <<vars, disk, made, sout, last, code>>
(* idl: the document to a file or printed *)
ToStdout == w.api = "idl" /\ (Cli.out = <<>> \/ Cli.dash)
PrintDoc == /\ cp = "write" /\ ToStdout
            /\ IF Cli.sink = "full" THEN Exit(1) /\ UNCHANGED sout ELSE Exit(0) /\ sout' = <<outs[1].out>>
            /\ UNCHANGED <<vars, disk, made>>
SaveDoc == /\ cp = "write" /\ w.api = "idl" /\ ~ToStdout
           /\ IF Writable(Cli.out[1]) THEN Exit(0) /\ disk' = <<<<Target(Cli.out[1]), outs[1].out>>>> ELSE Exit(1) /\ UNCHANGED disk
           /\ UNCHANGED <<vars, made, sout>>
(* idl2schemata: one file for each type, in the directory *)
OutDir == IF Cli.out = <<>> THEN <<>> ELSE Cli.out[1]
(* Two files of one name cannot both be there; the same type extracted twice is one file. *)
Clash == \E i, k \in 1..Len(outs[1].out) : outs[1].out[i].name = outs[1].out[k].name /\ outs[1].out[i].j # outs[1].out[k].j
TwoInOne == cp = "write" /\ w.api = "schemata" /\ Clash /\ Exit(1) /\ UNCHANGED <<vars, disk, made, sout>>
MakeDir == /\ cp = "write" /\ w.api = "schemata" /\ ~Clash
           /\ LET m == ToMake(<<>>, OutDir, <<>>) IN
              IF m = <<None>> THEN Exit(1) /\ UNCHANGED made ELSE cp' = "save" /\ made' = made \o m /\ UNCHANGED <<last, code>>
           /\ UNCHANGED <<vars, disk, sout>>
NextSchema == outs[1].out[Len(disk) + 1]
SaveSchema == /\ cp = "save" /\ Len(disk) < Len(outs[1].out)
              /\ LET p == Append(OutDir, NextSchema.name \o ".avsc") IN
                 IF Writable(p) THEN disk' = Append(disk, <<Target(p), NextSchema.j>>) /\ UNCHANGED <<cp, last, code>>
                 ELSE Exit(1) /\ UNCHANGED disk
              /\ UNCHANGED <<vars, made, sout>>
Saved == cp = "save" /\ Len(disk) = Len(outs[1].out) /\ Exit(0) /\ UNCHANGED <<vars, disk, made, sout>>
(* The same once more: nothing is left of what was there before but directories. *)
More == Cli.again # "no" /\ code = <<0>> /\ disk # <<>> /\ last = <<>>
Again == /\ cp = "exit" /\ More /\ cp' = "args" /\ last' = disk /\ disk' = <<>> /\ code' = <<>> /\ UNCHANGED <<made, sout>>
         /\ ci' = 1 /\ acc' = <<>> /\ run' = Idle /\ outs' = <<>> /\ UNCHANGED <<w, live>>
Gone == cp = "exit" /\ ~More /\ UNCHANGED vars /\ UNCHANGED cvars

CInit == Init /\ cp = "args" /\ disk = <<>> /\ made = <<>> /\ sout = <<>> /\ last = <<>> /\ code = <<>>
CNext == Refuse \/ Accept \/ Compile \/ Failure \/ Compiled \/ PrintDoc \/ SaveDoc \/ TwoInOne \/ MakeDir \/ SaveSchema \/ Saved \/ Again \/ Gone
CSpec == CInit /\ [][CNext]_<<vars, cvars>> /\ WF_<<vars, cvars>>(CNext)

(* -------------------------------- properties --------------------------------- *)
Succeeded == outs # <<>> /\ outs[1].ok
NothingBefore == [][((disk' # disk /\ disk' # <<>>) \/ made' # made \/ sout' # sout) => Succeeded]_<<vars, cvars>>
ExitTellsAll == cp = "exit" =>
  /\ code = <<0>> => (Succeeded /\ IF w.api = "schemata" THEN Len(disk) = Len(outs[1].out) ELSE Len(disk) + Len(sout) = 1)
  /\ ~Succeeded => (code # <<0>> /\ disk = <<>> /\ made = <<>> /\ sout = <<>>)
  /\ last # <<>> => disk = last
OnePlace == (sout # <<>> => disk = <<>> /\ made = <<>>) /\ (w.api = "schemata" => sout = <<>>)
(* No file is written twice with different documents. *)
NoneLost == \A i, k \in 1..Len(disk) : disk[i][1] = disk[k][1] => disk[i][2] = disk[k][2]
Exits == <>[](cp = "exit")

CliReport == (cp = "exit" /\ ~More) =>
  PrintT(<<"CASE", ToJson([w |-> w, outs |-> outs, cli |-> [code |-> code[1], disk |-> disk, made |-> made, sout |-> sout,
                            warns |-> IF outs = <<>> THEN 0 ELSE IF outs[1].ok THEN Len(outs[1].warns) ELSE Len(acc)]])>>)
=============================================================================
