----------------------------- MODULE TraceStore -----------------------------
(* Conformance: every recorded execution of the real library in TraceFile must
   be a behaviour of FdbStore.  One TLC run validates many executions (tid).   *)
EXTENDS FdbStore, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid,   \* which execution
          l,     \* next event of it
          S,     \* state of the specification
          br     \* 0: the execution itself; n: its n-th continuation (see TraceCommit)
vars == <<tid, l, S, br>>

Req(e) == [x \in DOMAIN e.req |-> ToSet(e.req[x])]
Sch(t) == [db |-> ToSet(t.sch.db), ix |-> ToSet(t.sch.ix), dt |-> ToSet(t.sch.dt)]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ br = 0
        /\ S = InitS(Sch(Traces[tid]), Traces[tid].opt)

Ev == IF br = 0 THEN Traces[tid].ev[l] ELSE Traces[tid].br[br].ev[l]

\* expected = observed, reporting the difference otherwise
Eq(exp, obs) == IF exp = obs THEN TRUE
                ELSE /\ PrintT(<<"DIFF", tid, l, br, Ev.op, "expected", exp, "observed", obs>>)
                     /\ FALSE

Same == S' = S

DoOpen(e) == Eq("ok", e.res) /\ S' = [OpenHandle(S, e.h, e.sub) EXCEPT !.cbh = IF "cb" \in DOMAIN e THEN @ \cup {e.h} ELSE @]
DoClose(e) ==
    LET T == FlushCalled(S, e.h) IN
    /\ Eq("ok", e.res)
    /\ IF "flushes" \in DOMAIN e THEN Eq(Get(T.fc, e.h, 0), e.flushes) ELSE TRUE
    /\ S' = [CloseHandle(T, e.h) EXCEPT !.cbh = @ \ {e.h}, !.cb = Drop(@, e.h), !.fc = Drop(@, e.h)]
\* with a small limit on open databases, the tables of contents seen to grow tell which session was closed
Grown(T) == {d \in DOMAIN S.cats : T.cats[d].toc # S.cats[d].toc \/ T.cats[d].subs # S.cats[d].subs}
DoArchive(e) ==
    LET all == Archive(S, e.h, e.key, e.v, e.len)
        rs == IF "tc" \in DOMAIN e THEN {r \in all : Grown(r[2]) = ToSet(e.tc)} ELSE all
    IN IF rs = {} THEN Eq({Grown(r[2]) : r \in all}, {ToSet(e.tc)}) /\ FALSE
       ELSE \E r \in rs : Eq(r[1], e.res) /\ S' = IF e.res = "ok" THEN Called(r[2], e.h, e.key, e.v, e.len) ELSE r[2]
\* no archive callback for a reindexed field; the file named is one outside every database, or that of an archived field
DoReindex(e) ==
    LET f == IF e.ext > 0 THEN <<"ext", e.ext>> ELSE CHOOSE f \in FilesOf(S, e.v) : TRUE
        all == Reindex(S, e.h, e.key, e.v, e.len, f)
        rs == IF "tc" \in DOMAIN e THEN {r \in all : Grown(r[2]) = ToSet(e.tc)} ELSE all
    IN IF rs = {} THEN Eq({Grown(r[2]) : r \in all}, {ToSet(e.tc)}) /\ FALSE
       ELSE \E r \in rs : Eq(r[1], e.res) /\ S' = IF e.res = "ok" THEN [r[2] EXCEPT !.dirty = @ \cup {e.h}] ELSE r[2]
\* files outside every database are never touched
DoExt(e) == Eq(TRUE, e.same) /\ Same
DoFlush(e) == Eq("ok", e.res) /\ S' = FlushHandle(FlushCalled(S, e.h), e.h)
DoDirty(e) == Eq("ok", e.res) /\ Eq(e.h \in S.dirty, e.dirty) /\ Same

\* a stream of messages, with or without a request
DoArchiveAll(e) ==
    LET kws == IF "req" \in DOMAIN e THEN DOMAIN e.req ELSE {"*"}
        rs == ArchiveAll(S, e.h, e.msgs, kws, IF "req" \in DOMAIN e THEN Product(Req(e)) ELSE {})
    IN /\ Eq(TRUE, \E r \in rs : r[1] = e.res)
       /\ \E r \in rs : r[1] = e.res /\ S' = r[2]

\* the callbacks since the last look: exactly the archives, in order; those flushed read back through their location
DoCbs(e) ==
    LET c == Get(S.cb, e.h, <<>>) IN
    /\ Eq("ok", e.res)
    /\ Eq(c, [i \in 1..Len(e.cbs) |-> [k |-> e.cbs[i].key, v |-> e.cbs[i].v, len |-> e.cbs[i].len]])
    /\ \A i \in 1..Len(c) : Waiting(S, e.h, c[i]) \/ Eq([loc |-> TRUE, llen |-> c[i].len, rv |-> c[i].v],
                                                       [loc |-> e.cbs[i].loc, llen |-> e.cbs[i].llen, rv |-> e.cbs[i].rv])
    /\ Eq(Get(S.fc, e.h, 0), e.flushes)
    /\ S' = [S EXCEPT !.cb = Put(@, e.h, <<>>), !.fc = Put(@, e.h, 0)]

DoList(e) ==
    LET req == Req(e) IN
    /\ Eq("ok", e.res)
    /\ CASE e.level = 3 -> LET E == ListEntries(S, req, e.mode)
                               Ordered(k) == LET q == SetToSortSeq({x \in E : x[2] = k}, LAMBDA x, y : x[1] < y[1])
                                             IN [i \in 1..Len(q) |-> El(q[i])]
                           IN /\ Eq(BagOf(E), SeqBag(e.obs))
                              \* the versions of one key come newest first
                              /\ \A k \in {x[2] : x \in E} : Eq(Ordered(k), SelectSeq(e.obs, LAMBDA o : o.k = k))
         [] e.level = 2 -> Eq({x[2] : x \in ListIndexes(S, req)}, ToSet(e.obs))
         [] e.level = 1 -> Eq(ListDbs(S, req), ToSet(e.obs))
    /\ Same

\* inspect and retrieve share the handle's readers. Saw(d) is the set of values observed of database d
Retrieved(e, Saw(_), Agrees(_)) ==
    LET req == Req(e)
        ds == RetrieveDbs(S, req)
        bad == {d \in ds : Explains(S, e.h, d, req, Saw(d)) = {}}
    IN /\ Eq("ok", e.res)
       /\ \A d \in bad : Eq([db |-> d, may |-> {{x.v : x \in PickedBy(S, d, c, req)} : c \in RetrieveChoices(S, e.h, d)}],
                            [db |-> d, got |-> Saw(d)])
       /\ LET f == [d \in ds |-> Oldest(Explains(S, e.h, d, req, Saw(d)))] IN
          /\ Agrees(UNION {PickedBy(S, d, f[d], req) : d \in ds})
          /\ S' = RetrieveSeen(S, e.h, req, f)
IsOf(k, d) == \A x \in DOMAIN d : k[x] = d[x]
DoInspect(e) == Retrieved(e, LAMBDA d : {e.obs[i].v : i \in {j \in 1..Len(e.obs) : IsOf(e.obs[j].k, d)}},
    LAMBDA X : Eq([x \in X |-> 1], SeqBag(e.obs)))
\* values tell the databases apart, unless one is mounted on another; then the messages carry their keys
DoRetrieve(e) == Retrieved(e, LAMBDA d : IF "gk" \in DOMAIN e THEN {e.vs[i] : i \in {j \in 1..Len(e.gk) : IsOf(e.gk[j], d)}}
                                         ELSE ToSet(e.vs) \cap AllV(S, d),
    LAMBDA X :
    /\ Eq([x \in {y.v : y \in X} |-> Cardinality({y \in X : y.v = x})], SeqBag(e.vs))
    /\ Eq(FoldSet(LAMBDA x, a : a + x.len, 0, X), e.size)
    /\ IF "gk" \in DOMAIN e THEN Eq({[v |-> y.v, k |-> y.k] : y \in X}, {[v |-> e.vs[i], k |-> e.gk[i]] : i \in 1..Len(e.gk)}) ELSE TRUE)

DoAxes(e) ==
    LET req == Req(e)
        exp == {[key |-> d, axes |-> AxesOf(S, d, req, e.level)] : d \in DbsFor(S, req)}
    IN /\ Eq("ok", e.res)
       /\ Eq(exp, {[key |-> e.obs[i].key, axes |-> [x \in DOMAIN e.obs[i].axes |-> ToSet(e.obs[i].axes[x])]] : i \in 1..Len(e.obs)})
       /\ Eq(Cardinality(exp), Len(e.obs))
       /\ Same

DoStats(e) ==
    LET ds == DbsFor(S, Req(e)) IN
    /\ Eq("ok", e.res)
    /\ Eq([x \in {StatsOf(S, d) : d \in ds} |-> Cardinality({d \in ds : StatsOf(S, d) = x})], SeqBag(e.obs))
    /\ Same

DoStatus(e) ==
    LET exp == {[key |-> d, enabled |-> LockNames \ S.cats[d].locks] : d \in DbsFor(S, Req(e))}
    IN /\ Eq("ok", e.res)
       /\ Eq(exp, {[key |-> e.obs[i].key, enabled |-> ToSet(e.obs[i].enabled)] : i \in 1..Len(e.obs)})
       /\ Eq(Cardinality(exp), Len(e.obs))
       /\ Same

\* control acts on, and reports, exactly the matching databases, with their new state;
\* a request naming anything below the database level touches nothing
DoControl(e) ==
    LET req == Req(e)
        over == ~(DOMAIN req \subseteq S.sch.db)
        S2 == IF over THEN S ELSE Control(S, req, e.action = "disable", ToSet(e.ids))
        ds == IF over THEN {} ELSE DbsFor(S, req)
        exp == {[key |-> d, enabled |-> LockNames \ S2.cats[d].locks] : d \in ds}
    IN /\ Eq("ok", e.res)
       /\ Eq(exp, {[key |-> e.obs[i].key, enabled |-> ToSet(e.obs[i].enabled)] : i \in 1..Len(e.obs)})
       /\ S' = S2

\* purge: refuses requests below the database level, skips databases locked against wiping
DoPurge(e) ==
    LET req == Req(e)
        ds == {d \in DbsFor(S, req) : ~Locked(S, d, "wipe")}
    IN IF ~(DOMAIN req \subseteq S.sch.db) /\ ds # {}
       THEN Eq("UserError", e.res) /\ Same
       ELSE IF \E d \in ds : PurgeFails(S, d) \/ (PurgeMayFail(S, d) /\ e.res = "Exception")
       THEN Eq("Exception", e.res) /\ Same
       ELSE Eq("ok", e.res) /\ S' = IF e.doit THEN FoldS(PurgeDb, S, ds) ELSE S

DoWipe(e) ==
    LET req == Req(e)
        ds == DbsFor(S, req)
        bad == {d \in ds : WipeRefuses(S, d, req, e.doit, e.unsafe)}
    IN IF bad = {} THEN Eq("ok", e.res) /\ S' = IF e.doit THEN WipeMany(S, ds, req) ELSE S
       ELSE /\ Eq(TRUE, e.res # "ok")
            /\ IF e.doit THEN \E X \in SUBSET (ds \ bad) : S' = WipeMany(S, X, req) ELSE Same

DoHide(e) == Eq("ok", e.res) /\ S' = FoldS(HideDb, S, {d \in DbsFor(S, Req(e)) : TRUE})

DoOverlay(e) ==
    IF OverlayRefused(S, e.src, e.tgt, ToSet(e.vkeys), e.remove, e.force)
    THEN Eq(TRUE, e.res # "ok") /\ Same
    ELSE Eq("ok", e.res) /\ S' = IF e.remove THEN Unmount(S, e.src, e.tgt) ELSE Overlay(S, e.src, e.tgt)

DoMove(e) ==
    IF e.key \notin DOMAIN S.cats THEN Eq(TRUE, e.res # "ok") /\ Same
    ELSE IF S.cats[e.key].loc = e.loc THEN Eq(TRUE, e.res # "ok") /\ S' = LockForMove(S, e.key)
    ELSE Eq("ok", e.res) /\ S' = Move(S, e.key, e.loc)

\* the root every database is in
DoWhere(e) == Eq({[key |-> d, loc |-> S.cats[d].loc] : d \in DOMAIN S.cats}, ToSet(e.obs)) /\ Same

\* the files in every database directory
DoLs(e) ==
    /\ Eq({[key |-> d, n |-> FileCounts(S, d)] : d \in DOMAIN S.cats}, ToSet(e.obs))
    /\ Same

\* the databases that still have files
DoLeft(e) == Eq(DOMAIN S.cats, ToSet(e.obs)) /\ Same

\* an unrecognised file appears in an existing database directory
DoJunk(e) == IF e.key \in DOMAIN S.cats THEN Eq("ok", e.res) /\ S' = [S EXCEPT !.junk = Put(@, e.key, @[e.key] \cup {e.name})]
             ELSE Eq("none", e.res) /\ Same

Step(e) == CASE e.op = "open" -> DoOpen(e)
             [] e.op = "close" -> DoClose(e)
             [] e.op = "archive" -> DoArchive(e)
             [] e.op = "flush" -> DoFlush(e)
             [] e.op = "reindex" -> DoReindex(e)
             [] e.op = "ext" -> DoExt(e)
             [] e.op = "list" -> DoList(e)
             [] e.op = "inspect" -> DoInspect(e)
             [] e.op = "retrieve" -> DoRetrieve(e)
             [] e.op = "axes" -> DoAxes(e)
             [] e.op = "stats" -> DoStats(e)
             [] e.op = "status" -> DoStatus(e)
             [] e.op = "control" -> DoControl(e)
             [] e.op = "purge" -> DoPurge(e)
             [] e.op = "wipe" -> DoWipe(e)
             [] e.op = "hide" -> DoHide(e)
             [] e.op = "dirty" -> DoDirty(e)
             [] e.op = "overlay" -> DoOverlay(e)
             [] e.op = "move" -> DoMove(e)
             [] e.op = "where" -> DoWhere(e)
             [] e.op = "garchive" -> DoArchiveAll(e)
             [] e.op = "cbs" -> DoCbs(e)
             [] e.op = "ls" -> DoLs(e)
             [] e.op = "left" -> DoLeft(e)
             [] e.op = "junk" -> DoJunk(e)

Next == /\ l <= Len(Traces[tid].ev)
        /\ l' = l + 1
        /\ tid' = tid
        /\ br' = br
        /\ Step(Ev)

Spec == Init /\ [][Next]_vars

\* progress registers: the longest matched prefix of each trace
Reg(t) == 1000 * t
ASSUME \A t \in 1..Len(Traces) : TLCSet(Reg(t), 0)
Progress == TLCSet(Reg(tid), IF TLCGet(Reg(tid)) < l - 1 THEN l - 1 ELSE TLCGet(Reg(tid)))
Accepted == /\ \A t \in 1..Len(Traces) :
                  \/ TLCGet(Reg(t)) = Len(Traces[t].ev)
                  \/ PrintT(<<"REJECT", t, TLCGet(Reg(t))>>)
            /\ PrintT(<<"VALIDATED", Len(Traces)>>)
=============================================================================
