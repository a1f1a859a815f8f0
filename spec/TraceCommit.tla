---------------------------- MODULE TraceCommit ----------------------------
(* Conformance of recorded file-system histories of real processes (one global
   order) with the commit protocol FdbCommit, of concurrent reads with the views
   it admits, and of every continuation after a crash or a power loss at a chosen
   point (the branches br of a trace) with FdbStore.

   Events of the history (p: process):
     call / ret                 an operation of the API begins / ends
     creat write sync rename unlink      of any file that is not a table of contents
     toc                        records written to a table of contents
   A branch [k, kind, keep, ev] continues after k events with the operations ev,
   executed on the directory as the first k events (kind "kill"), or the durable
   part of them ("power"), left it.                                             *)
EXTENDS TraceStore, FdbCommit

VARIABLES C,    \* file state (FdbCommit)
          X     \* [own: process -> (toc file -> records it appended), lo: process -> lengths at its last call,
         \*  api: process -> operation it is in, s0: process -> state when it began (of a wipe or purge)]
cvars == <<tid, l, S, br, C, X>>

T == Traces[tid]
CInit == /\ tid \in 1..Len(Traces)
         /\ l = 1
         /\ br = 0
         /\ S = [InitS(Sch(T), T.opt) EXCEPT !.nid = 1000000]
         /\ C = InitC
         /\ X = [own |-> Empty, lo |-> Empty, api |-> Empty, s0 |-> Empty]

Own(p) == Get(X.own, p, Empty)

(***************************************************************************)
(* Files                                                                    *)
(***************************************************************************)
DoCreat(e) == C' = Creat(C, e.f) /\ UNCHANGED <<S, X>>
DoWrite(e) == Eq(<<e.f, TRUE>>, <<e.f, WriteAllowed(C, e.f, e.off)>>) /\ C' = Write(C, e.f, e.off, e.n) /\ UNCHANGED <<S, X>>
DoSync(e) == C' = Sync(C, e.f) /\ UNCHANGED <<S, X>>
DoRename(e) == C' = MoveFile(C, e.f, e.to) /\ UNCHANGED <<S, X>>

\* a file may go only when no visible entry needs it
DoUnlink(e) ==
    LET S2 == IF e.main /\ e.d \in DOMAIN S.cats THEN Forget(S, e.d) ELSE S
        C2 == RemoveFile(C, e.f)
    IN /\ Eq(<<e.f, {}>>, <<e.f, {d \in DOMAIN S2.cats : \E r \in ToSet(Indexes(S2, d)) : e.f \in {r.idx} \cup r.data}>>)
       /\ S' = S2 /\ C' = C2 /\ UNCHANGED X

(***************************************************************************)
(* Tables of contents                                                       *)
(***************************************************************************)
\* references of one index record are written and forced to storage
RefsOK(r) == Eq(<<r.id, TRUE>>, <<r.id, RefsDurable(C, r.idx, r.off, ToSet(r.data))>>)
PublishAll(CC, recs) == FoldLeft(LAMBDA a, r : IF r.t = "IDX" THEN Publish(a, r.idx, ToSet(r.data)) ELSE a, CC, recs)

DoToc(e) ==
    LET n == Len(e.recs)
        kinds == {e.recs[i].t : i \in 1..n}
        first == n = 1 /\ e.recs[1].t = "INIT"
        again == first /\ Get(C.nrec, e.f, 0) > 0       \* two processes initialise the same database
        C2 == AppendRecs(PublishAll(C, e.recs), e.f, e.off, e.n, IF again THEN 0 ELSE n)
        ids(t) == SelectSeq(e.recs, LAMBDA r : r.t = t)
        clears == UNION {ToSet(e.recs[i].ids) : i \in {j \in 1..n : e.recs[j].t = "CLR"}}
        idx == ids("IDX")
        key == <<e.p, e.d>>
        mine == IF key \in DOMAIN S.ws THEN S.ws[key].sub ELSE 0
    IN /\ Eq(<<e.f, "whole records">>, <<e.f, IF "TORN" \in kinds THEN "torn" ELSE "whole records">>)
       \* records only ever go to the end; a second initialisation replaces an identical one
       /\ Eq(<<e.f, IF first THEN 0 ELSE Get(C.len, e.f, 0)>>, <<e.f, e.off>>)
       /\ (again => Eq(e.n, C.first[e.f]))
       /\ (~first => Eq(<<e.f, "initialised">>, <<e.f, IF Get(C.nrec, e.f, 0) > 0 THEN "initialised" ELSE "not">>))
       /\ (first /\ e.main => Eq(<<e.d, "schema durable">>, <<e.d, IF Exists(C, e.schema) /\ Dirty(C, e.schema) = {} THEN "schema durable" ELSE "not">>))
       /\ \A i \in 1..n : e.recs[i].t = "IDX" => RefsOK(e.recs[i])
       /\ \A i \in 1..n : e.recs[i].t = "SUB" => Eq(<<e.recs[i].file, "durable">>,
                <<e.recs[i].file, IF Get(C.dur, e.recs[i].file, 0) > 0 THEN "durable" ELSE "not">>)
       /\ CASE first -> S' = IF e.main THEN WithInit(S, e.d) ELSE S
            [] kinds = {"SUB"} -> Eq(1, n) /\ S' = AppendSub(S, e.p, e.d, e.recs[1].id)
            [] kinds = {"IDX"} -> S' = FoldLeft(LAMBDA a, r : AppendIdx(a, e.p, e.d, IF e.main THEN 0 ELSE e.sid, r), S, e.recs)
            \* consolidation at the end of a session with a private table: every index of the session, masking exactly its table
            [] kinds = {"IDX", "CLR"} ->
                 /\ Eq(<<e.d, {mine}>>, <<e.d, clears>>)
                 /\ Eq({ik \in DOMAIN S.ws[key].full : S.ws[key].full[ik] # Empty}, {idx[i].ik : i \in 1..Len(idx)})
                 /\ Eq(TRUE, SettledDb(S, e.p, e.d))
                 /\ S' = AppendCompact(S, e.p, e.d, idx, mine)
            [] kinds = {"CLR"} -> /\ Eq(TRUE, Get(X.api, e.p, "none") \in {"wipe", "purge"})
                                  /\ S' = AppendClear(S, e.d, clears)
                                  \* purge never changes what is visible
                                  /\ (Get(X.api, e.p, "none") = "purge" => Eq(VisMap(Indexes(S, e.d)), VisMap(Indexes(S', e.d))))
       /\ C' = C2
       /\ X' = [X EXCEPT !.own = Put(@, e.p, Put(Own(e.p), e.f, C2.nrec[e.f]))]

(***************************************************************************)
(* Operations of the API                                                    *)
(***************************************************************************)
DoCall(e) == /\ X' = [X EXCEPT !.lo = Put(@, e.p, Lens(S)), !.api = Put(@, e.p, e.api),
                               !.s0 = IF e.api \in {"wipe", "purge"} THEN Put(@, e.p, S) ELSE @]
             /\ UNCHANGED <<S, C>>

\* operations that never change a file
ReadOnly == {"list", "retrieve", "inspect", "axes", "stats", "status", "reader", "dry", "open"}
Changes == {"creat", "write", "sync", "rename", "unlink", "toc", "lock", "unlock"}
\* (with asynchronous writes, field data reach their file at any time before the flush)
Permitted(e) == (e.op \in Changes /\ ~(e.op = "write" /\ T.opt.async)) => Eq(<<"read only", FALSE>>, <<"read only", Get(X.api, e.p, "none") \in ReadOnly>>)

\* a wipe begins by disabling, and ends by restoring, what may be done with the database
DoLock(e) == /\ Eq(TRUE, Get(X.api, e.p, "none") \in {"wipe", "control"})
             /\ S' = IF e.d \in DOMAIN S.cats THEN [S EXCEPT !.cats = Put(@, e.d, [@[e.d] EXCEPT !.locks = IF e.op = "lock" THEN @ \cup {e.id} ELSE @ \ {e.id}])] ELSE S
             /\ UNCHANGED <<C, X>>
\* what a finished wipe or purge leaves
AdminDone(e, S1) ==
    /\ Eq(DOMAIN S1.cats, DOMAIN S.cats)
    /\ \A d \in DOMAIN S.cats : /\ Eq(VisMap(Indexes(S1, d)), VisMap(Indexes(S, d)))
                                /\ Eq({r.id : r \in ToSet(Indexes(S1, d))}, {r.id : r \in ToSet(Indexes(S, d))})
                                /\ Eq(S1.cats[d].locks, S.cats[d].locks)

\* what e.p appended is forced to storage
OwnDurable(p) == \A f \in DOMAIN Own(p) : (f \in DOMAIN C.nrec) => Eq(<<f, TRUE>>, <<f, Get(C.dur, f, 0) >= Own(p)[f]>>)

Seen(e, obsV) ==   \* databases whose observed part no admissible view explains
    LET req == Req(e) IN
    {d \in DOMAIN S.cats : ~\E vm \in Views(S, d, X.lo[e.p]) :
        {x.v : x \in Shown(d, vm, req)} = obsV \cap AllV(S, d)}
KnownV == UNION {AllV(S, d) : d \in DOMAIN S.cats}

DoRet(e) ==
    /\ Eq("ok", e.res)
    /\ CASE e.api = "archive" ->
              LET d == Part(e.key, S.sch.db)
                  k == <<e.p, d>>
                  S1 == IF k \in DOMAIN S.ws THEN S ELSE NewSession(S, k)
              IN /\ Eq(TRUE, d \in DOMAIN S.cats)
                 /\ S' = PutDatum(S1, k, Part(e.key, S.sch.ix), Part(e.key, S.sch.dt), e.v, e.len)
         [] e.api = "open" -> S' = OpenHandle(S, e.p, e.sub)
         [] e.api = "flush" -> Eq(<<"published", TRUE>>, <<"published", Settled(S, e.p)>>) /\ OwnDurable(e.p) /\ S' = S
         [] e.api = "close" -> Eq(<<"published", TRUE>>, <<"published", Settled(S, e.p)>>) /\ S' = KillProc(S, e.p)
         [] e.api \in {"list", "retrieve"} ->
              LET obsV == {e.obs[i].v : i \in 1..Len(e.obs)}
                  bad == Seen(e, obsV)
              IN /\ \A d \in bad : Eq([db |-> d, may |-> {{x.v : x \in Shown(d, vm, Req(e))} : vm \in Views(S, d, X.lo[e.p])}],
                                      [db |-> d, got |-> obsV \cap AllV(S, d)])
                 /\ Eq({}, obsV \ KnownV)
                 /\ Eq(Cardinality(obsV), Len(e.obs))
                 /\ (e.api = "list" => Eq({}, {x \in ToSet(e.obs) : ~\E d \in DOMAIN S.cats :
                                               \E n \in 1..Len(S.hist[d]) : x \in Shown(d, S.hist[d][n], Req(e))}))
                 /\ S' = S
         [] e.api = "wipe" /\ e.doit -> LET S0 == X.s0[e.p] IN AdminDone(e, WipeMany(S0, DbsFor(S0, Req(e)), Req(e))) /\ S' = S
         [] e.api = "purge" /\ e.doit -> LET S0 == X.s0[e.p] IN AdminDone(e, FoldS(PurgeDb, S0, DbsFor(S0, Req(e)))) /\ S' = S
         [] OTHER -> S' = S
    /\ C' = C
    /\ X' = [X EXCEPT !.api = Put(@, e.p, "none")]

CStep(e) ==
    CASE e.op = "call" -> DoCall(e)
      [] e.op = "ret" -> DoRet(e)
      [] e.op = "die" -> S' = KillProc(S, e.p) /\ UNCHANGED <<C, X>>       \* killed, the others go on
      [] e.op = "creat" -> DoCreat(e)
      [] e.op = "write" -> DoWrite(e)
      [] e.op = "sync" -> DoSync(e)
      [] e.op = "rename" -> DoRename(e)
      [] e.op = "unlink" -> DoUnlink(e)
      [] e.op = "toc" -> DoToc(e)
      [] e.op \in {"lock", "unlock"} -> DoLock(e)

Base == /\ br = 0
        /\ l <= Len(T.ev)
        /\ Permitted(Ev)
        /\ CStep(Ev)
        /\ l' = l + 1 /\ br' = 0 /\ tid' = tid

TocFile(d) == T.tocs[CHOOSE i \in 1..Len(T.tocs) : T.tocs[i].d = d /\ T.tocs[i].sid = 0].f
SubFile(d, s) == LET is == {i \in 1..Len(T.tocs) : T.tocs[i].d = d /\ T.tocs[i].sid = s} IN
                 IF is = {} THEN "?" ELSE T.tocs[CHOOSE i \in is : TRUE].f

Crash == /\ br = 0
         /\ \E b \in 1..Len(T.br) :
              /\ T.br[b].k = l - 1
              /\ br' = b
              /\ S' = IF T.br[b].kind = "power" THEN PowerLoss(S, C, TocFile, SubFile, ToSet(T.br[b].keep))
                      ELSE LET op(A, p) == KillProc(A, p) IN FoldS(op, S, {k[1] : k \in DOMAIN S.ws} \cup S.subh)
         /\ l' = 1
         /\ UNCHANGED <<tid, C, X>>

Cont == /\ br > 0
        /\ l <= Len(T.br[br].ev)
        /\ Step(Ev)
        /\ l' = l + 1
        /\ UNCHANGED <<tid, br, C, X>>

CNext == Base \/ Crash \/ Cont
CSpec == CInit /\ [][CNext]_cvars

\* progress: the execution itself in register 1000 t (and for its branches 1000 t + b; 0 = not reached)
BReg(t, b) == 1000 * t + b
ASSUME \A t \in 1..Len(Traces) : \A b \in 1..Len(Traces[t].br) : TLCSet(BReg(t, b), 0)
CProgress == TLCSet(BReg(tid, br), IF TLCGet(BReg(tid, br)) < l THEN l ELSE TLCGet(BReg(tid, br)))
CAccepted ==
    /\ \A t \in 1..Len(Traces) :
         LET base == TLCGet(BReg(t, 0)) - 1 IN
         /\ \/ base = Len(Traces[t].ev)
            \/ PrintT(<<"REJECT", t, 0, base>>)
         /\ \A b \in 1..Len(Traces[t].br) :
              LET got == TLCGet(BReg(t, b)) - 1 IN
              \/ got = Len(Traces[t].br[b].ev)
              \/ base < Traces[t].br[b].k
              \/ PrintT(<<"REJECT", t, b, got>>)
    /\ PrintT(<<"VALIDATED", Len(Traces)>>)
=============================================================================
