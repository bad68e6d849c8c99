------------------------------- MODULE Batch -------------------------------
(* Run the specification on the worlds of a file and print what each call returns. *)
EXTENDS AvdlWorlds, IOUtils
BatchWorlds(k) == LET ws == TLCEval(ndJsonDeserialize(IOEnv.WORLDS)) IN {ws[i] : i \in 1..Len(ws)}
BatchReport == Finished => PrintT(<<"CASE", ToJson([id |-> World.id, outs |-> outs])>>)
=============================================================================
