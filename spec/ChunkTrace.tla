------------------------------ MODULE ChunkTrace ------------------------------
(* Recorded sequences of operations on chunked files, judged by ByteFile.   *)
(* Every file id has its stored data and at most one open handle.  An event *)
(* is [id, op, mode, n, whence, data, src] with its observation [out, err,  *)
(* pos, disk, changed, dups]: pos -1 if there is no open file, disk the     *)
(* independently decoded stored file (<<-2>> absent, <<-3>> undecodable).   *)
EXTENDS ByteFile, TLC, Json, IOUtils, FiniteSets

Data == JsonDeserialize(IOEnv.DATA)
Ids == {1, 2}
NoFile == <<-2>>
VARIABLES t, i, fs, st
vars == <<t, i, fs, st>>
Tr == Data[t]
Rpt(k, e) == PrintT("@@" \o ToJson([t |-> t, i |-> i, k |-> k, op |-> e]))
Closed == [data |-> <<>>, pos |-> 0, mode |-> "closed"]

TraceInit == t \in DOMAIN Data /\ i = 1
             /\ fs = [x \in Ids |-> Closed] /\ st = [x \in Ids |-> NoFile]
Step ==
  /\ i <= Len(Tr)
  /\ LET e == Tr[i]
         f == fs[e.id]
         r == CASE e.op = "open" -> LET o == OpenFile(st[e.id], st[e.id] # NoFile, e.mode)
                                    IN  [f |-> o.f, out |-> <<>>, err |-> o.err]
                [] e.op = "copy" -> [f |-> Closed, out |-> <<>>, err |-> FALSE]
                [] OTHER -> Apply(f, e)
         stores == ~r.err /\ e.op \in {"flush", "truncate", "close"} /\ CanWrite(f.mode)
         disk == CASE e.op = "copy" -> st[e.src]
                   [] stores -> r.f.data
                   [] OTHER -> st[e.id]
         outs == e.op \in {"read", "tell"} \/ (e.op = "seek" /\ ~r.err)
         bad == {k \in {"wrong-error", "wrong-data", "wrong-position", "wrong-stored",
                        "changed-by-reading", "stored-twice"} :
                   \/ k = "wrong-error" /\ e.err # r.err
                   \/ k = "wrong-data" /\ ~e.err /\ ~r.err /\ outs /\ e.out # r.out
                   \/ k = "wrong-position" /\ ~e.err /\ ~r.err /\ e.pos # -1 /\ e.pos # r.f.pos
                   \/ k = "wrong-stored" /\ ~e.err /\ e.op \in {"flush", "truncate", "close", "copy"}
                        /\ e.disk # disk
                   \/ k = "changed-by-reading" /\ e.changed /\ ~CanWrite(f.mode)
                        /\ e.op \notin {"open", "copy"}
                   \/ k = "stored-twice" /\ e.dups > 0}
     IN  /\ \A k \in bad : Rpt(k, e.op)
         \* a sequence is judged up to its first deviation
         /\ i' = IF bad # {} THEN Len(Tr) + 1 ELSE i + 1
         /\ fs' = [fs EXCEPT ![e.id] = IF r.err /\ e.pos # -1 THEN [r.f EXCEPT !.pos = e.pos] ELSE r.f]
         /\ st' = [st EXCEPT ![e.id] = disk]
  /\ UNCHANGED t
Fin == /\ i = Len(Tr) + 1 /\ Rpt("DONE", "") /\ i' = i + 1 /\ UNCHANGED <<t, fs, st>>
TraceSpec == TraceInit /\ [][Step \/ Fin]_vars
=============================================================================
