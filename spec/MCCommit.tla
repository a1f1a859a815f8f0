------------------------------ MODULE MCCommit ------------------------------
(* Every interleaving of the commit protocol of several processes writing one
   database (creating it at the same time, flushing, consolidating a private
   table of contents at close), with processes killed and restarted at any step;
   in every state, every outcome of a power loss and every view of a concurrent
   reader is checked.  Bug names one deviation from the protocol: each of them
   must violate an invariant (the runs with expect = False of the checks).      *)
EXTENDS FdbCommit

CONSTANTS Procs, SubProcs, Rounds, Kills, Bug
VARIABLES S, C, pc, rnd, flushed, kills, nfile
vars == <<S, C, pc, rnd, flushed, kills, nfile>>

D == [db |-> "d"]
IK == [ix |-> "i"]
MainToc == "toc"
SubOf(p) == "toc." \o p
Numbering == CHOOSE f \in [Procs -> 100..102] : \A a, b \in Procs : a # b => f[a] # f[b]
Sid(p) == Numbering[p]
\* every round writes a key of its own and one shared with everybody
Mine(p, r) == [dt |-> p \o ToString(r)]
Shared == [dt |-> "shared"]
Val(p, r) == 10 * Numbering[p] + r

DataF(p) == "data." \o p \o ToString(nfile[p])
IdxF(p) == "idx." \o p \o ToString(nfile[p])
FullF(p) == "full." \o p \o ToString(nfile[p])

Init == /\ S = [InitS([db |-> {"db"}, ix |-> {"ix"}, dt |-> {"dt"}], [maxdb |-> 9]) EXCEPT !.subh = SubProcs]
        /\ C = InitC
        /\ pc = [p \in Procs |-> "create"]
        /\ rnd = [p \in Procs |-> 1]
        /\ flushed = {}
        /\ kills = 0
        /\ nfile = [p \in Procs |-> 1]

Go(p, to) == pc' = [pc EXCEPT ![p] = to]
Keep == UNCHANGED <<rnd, flushed, kills, nfile>>
NRec(f) == Get(C.nrec, f, 0)
RecLen == 10

\* creation: open or create the table; when it is empty, write the schema, then the first record
Create(p) == /\ pc[p] = "create"
             /\ C' = IF Exists(C, MainToc) THEN C ELSE Creat(C, MainToc)
             /\ Go(p, "check") /\ UNCHANGED S /\ Keep
Check(p) == /\ pc[p] = "check"
            /\ Go(p, IF NRec(MainToc) > 0 THEN "archive" ELSE IF Bug = "initfirst" THEN "init" ELSE "schema")
            /\ UNCHANGED <<S, C>> /\ Keep
Schema(p) == /\ pc[p] = "schema"
             /\ C' = Write(Creat(C, "schema." \o p), "schema." \o p, 0, 5)
             /\ Go(p, "schemasync") /\ UNCHANGED S /\ Keep
SchemaSync(p) == /\ pc[p] = "schemasync"
                 /\ C' = MoveFile(IF Bug = "noschemasync" THEN C ELSE Sync(C, "schema." \o p), "schema." \o p, "schema")
                 /\ Go(p, IF Bug = "initfirst" THEN "archive" ELSE "init") /\ UNCHANGED S /\ Keep
InitRec(p) == /\ pc[p] = "init"
              /\ C' = AppendRecs(C, MainToc, IF Bug = "initappend" THEN Get(C.len, MainToc, 0) ELSE 0, RecLen, IF NRec(MainToc) > 0 THEN 0 ELSE 1)
              /\ S' = WithInit(S, D)
              /\ Go(p, "initsync") /\ Keep
InitSync(p) == /\ pc[p] = "initsync"
               /\ C' = Sync(C, MainToc)
               /\ Go(p, IF Bug = "initfirst" THEN "schema" ELSE "archive") /\ UNCHANGED S /\ Keep

PArchive(p, a) ==
    LET k == <<p, D>>
        S1 == IF k \in DOMAIN S.ws THEN S ELSE NewSession(S, k)
        S2 == PutDatum(S1, k, IK, Mine(p, rnd[p]), Val(p, rnd[p]), 1)
        c1 == IF Exists(C, DataF(p)) THEN C ELSE Creat(Creat(C, DataF(p)), IdxF(p))
    IN /\ pc[p] = "archive"
       /\ S' = [PutDatum(S2, k, IK, Shared, Val(p, rnd[p]), 1) EXCEPT !.nid = S.nid]
       /\ C' = Write(c1, DataF(p), Get(c1.len, DataF(p), 0), 2)
       /\ Go(p, "datasync") /\ Keep
DataSync(p) == /\ pc[p] = "datasync"
               /\ C' = IF Bug = "nodatasync" THEN C ELSE Sync(C, DataF(p))
               /\ Go(p, "idxwrite") /\ UNCHANGED S /\ Keep
IdxWrite(p) == /\ pc[p] = "idxwrite"
               /\ C' = Write(C, IdxF(p), IF Bug = "idxinplace" THEN 0 ELSE Get(C.len, IdxF(p), 0), 3)
               /\ Go(p, IF Bug = "appendfirst" THEN (IF p \in SubProcs THEN "sub" ELSE "append") ELSE "idxsync") /\ UNCHANGED S /\ Keep
IdxSync(p) == /\ pc[p] = "idxsync"
              /\ C' = Sync(C, IdxF(p))
              /\ Go(p, IF Bug = "appendfirst" THEN "tocsync" ELSE IF p \in SubProcs THEN "sub" ELSE "append") /\ UNCHANGED S /\ Keep

\* the private table of contents, once
SubCreate(p) == /\ pc[p] = "sub"
                /\ IF S.ws[<<p, D>>].sub # 0 THEN C' = C /\ Go(p, "append")
                   ELSE C' = AppendRecs(Creat(C, SubOf(p)), SubOf(p), 0, RecLen, 1) /\ Go(p, IF Bug = "nosubsync" THEN "subrec" ELSE "subsync")
                /\ UNCHANGED S /\ Keep
SubSync(p) == /\ pc[p] = "subsync" /\ C' = Sync(C, SubOf(p)) /\ Go(p, "subrec") /\ UNCHANGED S /\ Keep
SubRec(p) == /\ pc[p] = "subrec"
             /\ S' = AppendSub(S, p, D, Sid(p))
             /\ C' = AppendRecs(C, MainToc, Get(C.len, MainToc, 0), RecLen, 1)
             /\ Go(p, IF Bug = "nosubrecsync" THEN "append" ELSE "subrecsync") /\ Keep
SubRecSync(p) == /\ pc[p] = "subrecsync" /\ C' = Sync(C, MainToc) /\ Go(p, "append") /\ UNCHANGED S /\ Keep

Toc(p) == IF p \in SubProcs THEN SubOf(p) ELSE MainToc
IdxLast(p) == LET o == Get(C.len, IdxF(p), 0) - 3 IN IF o < 0 THEN 0 ELSE o
Append1(p) == /\ pc[p] = "append"
              /\ LET r == [id |-> S.nid + 1, ik |-> IK, idx |-> IdxF(p), off |-> IdxLast(p), data |-> <<DataF(p)>>]
                 IN S' = [AppendIdx(S, p, D, IF p \in SubProcs THEN Sid(p) ELSE 0, r) EXCEPT !.nid = S.nid + 1]
              /\ C' = Publish(AppendRecs(C, Toc(p), Get(C.len, Toc(p), 0), RecLen, 1), IdxF(p), {DataF(p)})
              /\ Go(p, IF Bug = "appendfirst" THEN "idxsync" ELSE "tocsync") /\ Keep
TocSync(p) == /\ pc[p] = "tocsync"
              /\ C' = IF Bug = "notocsync" THEN C ELSE Sync(C, Toc(p))
              /\ flushed' = flushed \cup {<<Mine(p, rnd[p]), Val(p, rnd[p])>>, <<Shared, Val(p, rnd[p])>>}
              /\ IF rnd[p] < Rounds THEN rnd' = [rnd EXCEPT ![p] = @ + 1] /\ Go(p, "archive")
                 ELSE rnd' = rnd /\ Go(p, IF p \in SubProcs THEN "fullwrite" ELSE "done")
              /\ UNCHANGED <<S, kills, nfile>>
\* consolidation at close
FullWrite(p) == /\ pc[p] = "fullwrite"
                /\ C' = Write(Creat(C, FullF(p)), FullF(p), 0, 6) /\ Go(p, "fullsync") /\ UNCHANGED S /\ Keep
FullSync(p) == /\ pc[p] = "fullsync"
               /\ C' = (IF Bug = "nofullsync" THEN C ELSE Sync(C, FullF(p))) /\ Go(p, IF Bug = "maskfirst" THEN "mask" ELSE "compact") /\ UNCHANGED S /\ Keep
\* (deviation) the private table is masked before the consolidated index is appended
Mask(p) == /\ pc[p] = "mask"
           /\ S' = AppendClear(S, D, {Sid(p)})
           /\ C' = AppendRecs(C, MainToc, Get(C.len, MainToc, 0), RecLen, 1) /\ Go(p, "compact") /\ Keep
Compact(p) == /\ pc[p] = "compact"
              /\ LET r == [id |-> S.nid + 1, ik |-> IK, idx |-> FullF(p), off |-> 0, data |-> <<DataF(p)>>]
                 IN S' = [AppendCompact(S, p, D, <<r>>, Sid(p)) EXCEPT !.nid = S.nid + 1]
              /\ C' = Publish(AppendRecs(C, MainToc, Get(C.len, MainToc, 0), 2 * RecLen, 2), FullF(p), {DataF(p)})
              /\ Go(p, "done") /\ Keep

\* killed at any step; a new process goes on with the next round
Kill(p) == /\ kills < Kills /\ pc[p] \notin {"done"}
           /\ S' = [KillProc(S, p) EXCEPT !.subh = SubProcs \ {p}]
           /\ kills' = kills + 1
           /\ nfile' = [nfile EXCEPT ![p] = @ + 1]
           /\ rnd' = [rnd EXCEPT ![p] = @ + 1]
           /\ pc' = [pc EXCEPT ![p] = IF rnd[p] < Rounds /\ p \notin SubProcs THEN "create" ELSE "done"]
           /\ UNCHANGED <<C, flushed>>

Next == \E p \in Procs : \/ Create(p) \/ Check(p) \/ Schema(p) \/ SchemaSync(p) \/ InitRec(p) \/ InitSync(p)
                         \/ PArchive(p, 0) \/ DataSync(p) \/ IdxWrite(p) \/ IdxSync(p) \/ SubCreate(p) \/ SubSync(p) \/ SubRec(p)
                         \/ SubRecSync(p) \/ Append1(p) \/ TocSync(p) \/ FullWrite(p) \/ FullSync(p) \/ Mask(p) \/ Compact(p) \/ Kill(p)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
Idxs(T) == IF D \in DOMAIN T.cats THEN ToSet(Indexes(T, D)) ELSE {}
Vis(T) == IF D \in DOMAIN T.cats THEN VisMap(Indexes(T, D)) ELSE Empty
\* flushed fields are there: their own keys with their value, the shared key with some flushed or newer value
AllFlushedIn(T) ==
    \A kv \in flushed : /\ <<IK, kv[1]>> \in DOMAIN Vis(T)
                        /\ kv[1] # Shared => Vis(T)[<<IK, kv[1]>>].v = kv[2]
\* F03: whatever is killed now, everything flushed stays visible, and the database has its schema
SurvivesKill == AllFlushedIn(S) /\ (D \in DOMAIN S.cats => Exists(C, "schema"))
\* F04: the same after a power loss that keeps or loses each unsynced table, and what is visible then is on storage
TocFile(d) == MainToc
SubFile(d, s) == SubOf(CHOOSE p \in Procs : Sid(p) = s)
SurvivesPower ==
    \A keep \in SUBSET ({MainToc} \cup {SubOf(p) : p \in SubProcs}) :
        LET P == PowerLoss(S, C, TocFile, SubFile, keep) IN
        /\ AllFlushedIn(P)
        /\ D \in DOMAIN P.cats => Exists(C, "schema") /\ Dirty(C, "schema") = {}
        /\ \A r \in Idxs(P) : \A f \in {r.idx} \cup r.data : Exists(C, f) /\ \A o \in Dirty(C, f) : o >= Get(C.pub, f, 0)
\* F05/F06: any reader's view has, per process, a prefix of its publications, and only complete fields
ReaderPrefixes == D \in DOMAIN S.cats =>
    \A vm \in Views(S, D, Empty) : \A p \in Procs : \A r \in 2..Rounds :
        <<IK, Mine(p, r)>> \in DOMAIN vm =>
            \A q \in 1..(r - 1) : <<Mine(p, q), Val(p, q)>> \in flushed => <<IK, Mine(p, q)>> \in DOMAIN vm
ValuesOwn == D \in DOMAIN S.cats => \A x \in DOMAIN Vis(S) : x[2] # Shared => \E p \in Procs, r \in 1..Rounds : x[2] = Mine(p, r) /\ Vis(S)[x].v = Val(p, r)
\* the shared key: a writer's later flush is never replaced by the same writer's earlier one
SharedOrder == \A kv \in flushed : kv[1] = Shared =>
    LET v == Vis(S)[<<IK, Shared>>].v IN
    \A p \in Procs : v \div 10 = Numbering[p] => \A r \in 1..Rounds : (<<Shared, Val(p, r)>> \in flushed => v >= Val(p, r))
\* published bytes and records are never overwritten
TocWhole == \A f \in DOMAIN C.nrec : f \in {MainToc} \cup {SubOf(p) : p \in SubProcs} => Get(C.len, f, 0) = RecLen * C.nrec[f]
NoOverwrite == \A f \in DOMAIN C.dirty : \A o \in C.dirty[f] : (f \notin {MainToc} \cup {SubOf(p) : p \in SubProcs}) => (o >= Get(C.pub, f, 0) \/ Bug = "nodatasync" \/ Bug = "appendfirst" \/ Bug = "nofullsync")
RefsAlwaysDurable == \A r \in Idxs(S) : \A f \in {r.idx} \cup r.data : \A o \in Dirty(C, f) : o >= Get(C.pub, f, 0)
=============================================================================
