------------------------------ MODULE FdbStore ------------------------------
(* Implementation-shaped specification of one FDB (the "local" API over the TOC
   catalogue and file store), written as pure operators over a state record so
   that the exhaustive model (MCStore), and the conformance specification
   (TraceStore) use exactly the same transitions.

   Keys are functions keyword -> value (JSON objects); a schema is the partition
   of the keywords into the three levels.

   State record S:
     sch   [db, ix, dt]      sets of keywords
     opt   [maxdb]           number of databases a handle keeps open
     subh  handles that write in sub-toc mode
     fs    dbKey -> files in the database directory: <<"data",sid,ik>>, <<"index",sid,ik,"part"|"full">>, <<"toc",sub>>
     junk  dbKey -> unrecognised files in the database directory
     cats  dbKey -> [toc, subs, locks, loc]   what is on disk, and in which root
             toc   : sequence of records [t |-> "INIT"|"IDX"|"SUB"|"CLR"|"ALL", ...]; a SUB record with "db" mounts
                     (overlays) another database, where it was at that time
             subs  : subId -> sequence of records
     ws    <<handle, dbKey>> -> writer session
     rd    <<handle, dbKey>> -> index into hist[dbKey] (lower bound of a cached reader)
     hist  dbKey -> sequence of visible maps, the last one is the current one
     nid   source of fresh ids
     dirty handles with an archive since their last flush
     cbh   handles with callbacks; cb: handle -> sequence of archive callbacks not yet looked at; fc: number of flush callbacks *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Empty == [x \in {} |-> x]
Part(k, kws) == [x \in (DOMAIN k) \cap kws |-> k[x]]
Put(f, x, y) == (x :> y) @@ f
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
DropAll(f, xs) == [y \in DOMAIN f \ xs |-> f[y]]
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d

InitS(sch, opt) == [sch |-> sch, opt |-> opt, cats |-> Empty, ws |-> Empty,
                    rd |-> Empty, hist |-> Empty, nid |-> 0, subh |-> {}, fs |-> Empty, junk |-> Empty,
                    dirty |-> {}, cbh |-> {}, cb |-> Empty, fc |-> Empty]
OpenHandle(S, h, sub) == [S EXCEPT !.subh = IF sub THEN @ \cup {h} ELSE @ \ {h}]

NewCat == [toc |-> <<[t |-> "INIT", id |-> 0]>>, subs |-> Empty, locks |-> {}, loc |-> 1]

(***************************************************************************)
(* Reading a TOC                                                           *)
(***************************************************************************)
\* ids masked by the clear records of one toc (a clear-all masks only what precedes it)
MaskedIn(toc) ==
    UNION { IF toc[i].t = "CLR" THEN toc[i].ids
            ELSE IF toc[i].t = "ALL" THEN {toc[j].id : j \in 1..i}
            ELSE {} : i \in 1..Len(toc) }

RECURSIVE FlatCat(_, _, _)
RECURSIVE FlatToc(_, _, _, _, _)
\* oldest-first sequence of the unmasked index records reachable from `toc`
FlatToc(cats, c, toc, outer, depth) ==
    LET m == MaskedIn(toc) \cup outer IN
    FoldLeft(LAMBDA acc, r :
        IF r.t = "IDX" /\ r.id \notin m THEN Append(acc, r)
        ELSE IF r.t = "SUB" /\ r.id \notin m THEN
             acc \o (IF "db" \in DOMAIN r     \* an overlaid (mounted) database
                     THEN IF r.db \in DOMAIN cats /\ cats[r.db].loc = r.loc /\ depth > 0
                          THEN SelectSeq(FlatCat(cats, r.db, depth - 1), LAMBDA x : x.id \notin m) ELSE <<>>
                     ELSE FlatToc(cats, c, c.subs[r.id], m, depth))
        ELSE acc, <<>>, toc)
FlatCat(cats, d, depth) == FlatToc(cats, cats[d], cats[d].toc, {}, depth)

Indexes(S, d) == IF d \in DOMAIN S.cats THEN Reverse(FlatCat(S.cats, d, 5)) ELSE <<>>   \* newest first

\* newest-first look-up of one datum
Lookup(ixs, ik, dt) ==
    LET hit == {i \in 1..Len(ixs) : ixs[i].ik = ik /\ dt \in DOMAIN ixs[i].ents}
    IN IF hit = {} THEN {} ELSE {ixs[Min(hit)].ents[dt]}

\* everything a reader can retrieve: <<ix, dt>> -> [v, len]
VisMap(ixs) ==
    LET ks == UNION { {<<ixs[i].ik, dt>> : dt \in DOMAIN ixs[i].ents} : i \in 1..Len(ixs) }
    IN [p \in ks |-> LET e == CHOOSE e \in Lookup(ixs, p[1], p[2]) : TRUE IN [v |-> e.v, len |-> e.len]]

Mounting(S) == {x \in DOMAIN S.cats : \E i \in 1..Len(S.cats[x].toc) : "db" \in DOMAIN S.cats[x].toc[i]}
RECURSIVE FoldS(_, _, _)
FoldS(Op(_, _), S, ks) == IF ks = {} THEN S ELSE LET k == CHOOSE k \in ks : TRUE IN FoldS(Op, Op(S, k), ks \ {k})
NoteOne(S, d) ==
    LET vm == VisMap(Indexes(S, d)) IN
    IF d \in DOMAIN S.hist /\ Last(S.hist[d]) = vm THEN S
    ELSE [S EXCEPT !.hist = Put(S.hist, d, Append(Get(S.hist, d, <<Empty>>), vm))]
Note(S, d) == FoldS(NoteOne, S, {d} \cup Mounting(S))   \* record new visible versions of d, and of those it is mounted on

(***************************************************************************)
(* Writing                                                                 *)
(***************************************************************************)
Sessions(S, h) == {k \in DOMAIN S.ws : k[1] = h}

TouchCat(S, d) == IF d \in DOMAIN S.cats THEN S
                  ELSE [S EXCEPT !.cats = Put(S.cats, d, NewCat), !.hist = Put(S.hist, d, <<Empty>>),
                             !.fs = Put(S.fs, d, {}), !.junk = Put(S.junk, d, {})]

\* one new index record per index with unflushed entries
FlushSession(S, k) ==
    LET s == S.ws[k]
        d == k[2]
        dirty == {ik \in DOMAIN s.pend : s.pend[ik] # Empty}
        order == SetToSeq(dirty)
        n == Len(order)
        recs == [i \in 1..n |-> [t |-> "IDX", id |-> S.nid + i, ik |-> order[i], ents |-> s.pend[order[i]],
                                 xf |-> <<"index", s.sid, order[i], "part">>]]
        newsub == s.usesub /\ s.sub = 0
        sub == IF newsub THEN S.nid + n + 1 ELSE s.sub
        c == S.cats[d]
        c2 == IF ~s.usesub THEN [c EXCEPT !.toc = @ \o recs]
              ELSE [c EXCEPT !.toc = IF newsub THEN Append(@, [t |-> "SUB", id |-> sub]) ELSE @,
                             !.subs = Put(@, sub, Get(@, sub, <<>>) \o recs)]
    IN IF n = 0 THEN S
       ELSE Note([S EXCEPT !.cats = Put(S.cats, d, c2), !.nid = @ + n + 1,
                           !.fs = IF newsub THEN Put(@, d, @[d] \cup {<<"toc", sub>>}) ELSE @,
                           !.ws = Put(S.ws, k, [s EXCEPT !.pend = Empty, !.sub = sub])], d)

\* flush, then (sub-toc mode) publish the consolidated indexes and mask the sub-toc, in one append
CloseSession(S0, k) ==
    LET S == FlushSession(S0, k)
        s == S.ws[k]
        d == k[2]
        order == SetToSeq(DOMAIN s.full)
        n == Len(order)
        recs == [i \in 1..n |-> [t |-> "IDX", id |-> S.nid + i, ik |-> order[i], ents |-> s.full[order[i]],
                                 xf |-> <<"index", s.sid, order[i], "full">>]]
        S2 == IF s.usesub /\ s.sub # 0
              THEN [S EXCEPT !.cats = Put(S.cats, d, [S.cats[d] EXCEPT !.toc = @ \o recs \o <<[t |-> "CLR", id |-> 0, ids |-> {s.sub}]>>]),
                             !.nid = @ + n]
              ELSE S
    IN Note([S2 EXCEPT !.ws = Drop(S2.ws, k)], d)

FlushHandle(S, h) == FoldS(FlushSession, S, Sessions(S, h))
CloseHandle(S, h) ==
    LET S2 == FoldS(CloseSession, S, Sessions(S, h))
    IN [S2 EXCEPT !.rd = DropAll(S2.rd, {k \in DOMAIN S2.rd : k[1] = h}), !.subh = @ \ {h}]

NewSession(S, k) == [S EXCEPT !.nid = @ + 1,
                              !.ws = Put(S.ws, k, [sid |-> S.nid + 1, pend |-> Empty, full |-> Empty, sub |-> 0,
                                               usesub |-> k[1] \in S.subh])]

Locked(S, d, what) == d \in DOMAIN S.cats /\ what \in S.cats[d].locks

\* the sessions a handle may close to make room for a new database
Victims(S, h) == IF Cardinality(Sessions(S, h)) >= S.opt.maxdb THEN {{k} : k \in Sessions(S, h)} ELSE {{}}

\* a field in file f: of the session itself, or (reindexing) one that is somewhere else
PutAt(S, k, ik, dt, v, len, f) ==
    LET s == S.ws[k]
        e == [v |-> v, len |-> len, f |-> f]
        add(m) == Put(m, ik, Put(Get(m, ik, Empty), dt, e))
        files == {<<"index", s.sid, ik, "part">>} \cup (IF f = <<"data", s.sid, ik>> \/ f[1] = "ext" THEN {f} ELSE {})
                   \cup IF s.usesub THEN {<<"index", s.sid, ik, "full">>} ELSE {}
    IN [S EXCEPT !.ws = Put(S.ws, k, [s EXCEPT !.pend = add(@), !.full = IF s.usesub THEN add(@) ELSE @]),
                 !.fs = Put(S.fs, k[2], S.fs[k[2]] \cup files)]

PutDatum(S, k, ik, dt, v, len) == PutAt(S, k, ik, dt, v, len, <<"data", S.ws[k].sid, ik>>)

\* set of <<result, next state>> of selecting the database of a key for writing, and putting a field there
WriteInto(S, h, key, Field(_, _, _, _)) ==
    LET d == Part(key, S.sch.db)
        k == <<h, d>>
        ik == Part(key, S.sch.ix)
        dt == Part(key, S.sch.dt)
    IN IF k \in DOMAIN S.ws
       THEN {<<"ok", Field(S, k, ik, dt)>>}
       ELSE { LET S1 == TouchCat(FoldS(CloseSession, S, x), d)
              IN IF Locked(S, d, "archive")
                 THEN <<"UserError", S1>>
                 ELSE <<"ok", Field(NewSession(S1, k), k, ik, dt)>>
            : x \in Victims(S, h) }
Archive(S, h, key, v, len) == WriteInto(S, h, key, LAMBDA T, k, ik, dt : PutDatum(T, k, ik, dt, v, len))

\* giving a field that exists somewhere another key
Reindex(S, h, key, v, len, f) == WriteInto(S, h, key, LAMBDA T, k, ik, dt : PutAt(T, k, ik, dt, v, len, f))
FilesOf(S, v) == UNION { UNION { LET r == Indexes(S, d)[i] IN {r.ents[dt].f : dt \in {x \in DOMAIN r.ents : r.ents[x].v = v}} :
                                 i \in 1..Len(Indexes(S, d)) } : d \in DOMAIN S.cats }

(***************************************************************************)
(* Callbacks: one per archived field, one per flush of something           *)
(***************************************************************************)
Called(S, h, key, v, len) ==
    [S EXCEPT !.dirty = @ \cup {h},
              !.cb = IF h \in S.cbh THEN Put(@, h, Append(Get(@, h, <<>>), [k |-> key, v |-> v, len |-> len])) ELSE @]
FlushCalled(S, h) == IF h \notin S.dirty THEN S
    ELSE [S EXCEPT !.dirty = @ \ {h}, !.fc = IF h \in S.cbh THEN Put(@, h, Get(@, h, 0) + 1) ELSE @]
\* is the archived version still waiting in its session?
Waiting(S, h, c) ==
    LET k == <<h, Part(c.k, S.sch.db)>> ik == Part(c.k, S.sch.ix) dt == Part(c.k, S.sch.dt)
    IN k \in DOMAIN S.ws /\ ik \in DOMAIN S.ws[k].pend /\ dt \in DOMAIN S.ws[k].pend[ik]

\* archiving a sequence of messages, against a request (a set of keys to be covered exactly): set of <<result, state>>
RECURSIVE Product(_)
Product(req) == IF DOMAIN req = {} THEN {Empty}
                ELSE LET x == CHOOSE x \in DOMAIN req : TRUE
                     IN {Put(k, x, y) : y \in req[x], k \in Product(Drop(req, x))}
RECURSIVE ArchiveAll(_, _, _, _, _)
ArchiveAll(S, h, ms, kws, left) ==
    IF ms = <<>> THEN {<<IF left = {} THEN "ok" ELSE "UserError", S>>}
    ELSE LET m == Head(ms)
             k == Part(m.key, kws)
         IN IF k \notin left /\ kws # {"*"} THEN {<<"UserError", S>>}
            ELSE UNION { IF r[1] # "ok" THEN {r}
                         ELSE ArchiveAll(Called(r[2], h, m.key, m.v, m.len), h, Tail(ms), kws, left \ {k}) :
                         r \in Archive(S, h, m.key, m.v, m.len) }

(***************************************************************************)
(* Queries (list family): always read the current TOC                      *)
(***************************************************************************)
Match(k, req) == \A x \in DOMAIN k \cap DOMAIN req : k[x] \in req[x]
Covered(S, req) == DOMAIN req \subseteq (S.sch.db \cup S.sch.ix \cup S.sch.dt)
\* does an index record's content intersect the datum part of the request, axis by axis?
AxisMatch(S, r, req) ==
    \A x \in DOMAIN req \cap S.sch.dt : \E dt \in DOMAIN r.ents : dt[x] \in req[x]
IxMatch(S, r, req) == Match(r.ik, req) /\ AxisMatch(S, r, req)

DbsFor(S, req) == {d \in DOMAIN S.cats : Match(d, req)}
ListDbs(S, req) == {d \in DbsFor(S, req) : "list" \notin S.cats[d].locks}

\* all matching entries of d as <<position, key, v, len>>: position 1 is the newest index
Entries(S, d, req) ==
    LET ixs == Indexes(S, d) IN
    UNION { { <<i, d @@ ixs[i].ik @@ dt, ixs[i].ents[dt].v, ixs[i].ents[dt].len, ixs[i].ents[dt].f>> :
              dt \in {x \in DOMAIN ixs[i].ents : Match(x, req)} } :
            i \in {j \in 1..Len(ixs) : IxMatch(S, ixs[j], req)} }

\* the newest entry of each key
Newest(E) == {e \in E : ~\E g \in E : g[2] = e[2] /\ g[1] < e[1]}
Masked(E) == E \ Newest(E)

El(e) == [k |-> e[2], v |-> e[3], len |-> e[4]]
BagOf(E) == LET xs == {El(e) : e \in E} IN [x \in xs |-> Cardinality({e \in E : El(e) = x})]
SeqBag(s) == LET xs == {s[i] : i \in 1..Len(s)} IN [x \in xs |-> Cardinality({i \in 1..Len(s) : s[i] = x})]

ListEntries(S, req, mode) ==
    LET f(d) == LET E == Entries(S, d, req) IN
                CASE mode = "full" -> E [] mode = "dedup" -> Newest(E) [] mode = "dups" -> Masked(E)
    IN IF Covered(S, req) THEN UNION {f(d) : d \in ListDbs(S, req)} ELSE {}

\* level 2: one <<db, index>> key per matching index record
ListIndexes(S, req) ==
    UNION { LET ixs == Indexes(S, d) IN
            {<<i, d @@ ixs[i].ik>> : i \in {j \in 1..Len(ixs) : IxMatch(S, ixs[j], req)}} : d \in ListDbs(S, req) }

\* axes: per matching database, keyword -> set of values found in the matching indexes
AxesOf(S, d, req, level) ==
    LET ixs == Indexes(S, d)
        sel == {i \in 1..Len(ixs) : IxMatch(S, ixs[i], req)}
        dbx == [x \in DOMAIN d |-> {d[x]}]
        ikx == [x \in UNION {DOMAIN ixs[i].ik : i \in sel} |-> {ixs[i].ik[x] : i \in {j \in sel : x \in DOMAIN ixs[j].ik}}]
        dtx == [x \in UNION {UNION {DOMAIN dt : dt \in DOMAIN ixs[i].ents} : i \in sel} |->
                  UNION {{dt[x] : dt \in {y \in DOMAIN ixs[i].ents : x \in DOMAIN y}} : i \in sel}]
    IN IF level = 1 THEN dbx ELSE IF level = 2 THEN dbx @@ ikx ELSE dbx @@ ikx @@ dtx

\* stats: totals over every database whose key matches
StatsOf(S, d) ==
    LET E == Entries(S, d, Empty)
        D == Masked(E)
        size(X) == FoldSet(LAMBDA e, a : a + e[4], 0, X)
    IN [fields |-> Cardinality(E), dups |-> Cardinality(D), fsize |-> size(E), dsize |-> size(D)]

(***************************************************************************)
(* Retrieval through a handle's cached reader                              *)
(***************************************************************************)
\* visible versions a handle may see: from what it cached (if it did) to now
Versions(S, h, d) ==
    IF d \notin DOMAIN S.hist THEN {}
    ELSE (IF <<h, d>> \in DOMAIN S.rd THEN S.rd[<<h, d>>] ELSE Len(S.hist[d]))..Len(S.hist[d])

\* the fields of version n of database d selected by a full request
Picked(S, d, n, req) ==
    LET vm == S.hist[d][n] IN
    { [k |-> d @@ p[1] @@ p[2], v |-> vm[p].v, len |-> vm[p].len] :
      p \in {q \in DOMAIN vm : Match(q[1], req) /\ Match(q[2], req)} }

\* databases a retrieve looks at: those that exist (an unreadable one counts as absent unless already open)
RetrieveDbs(S, req) == {d \in DOMAIN S.cats : Match(d, req)}

\* what a handle may answer for database d: a set of <<version>> (or <<>>: the database is ignored)
RetrieveChoices(S, h, d) ==
    LET open == <<h, d>> \in DOMAIN S.rd
        vs == {<<n>> : n \in Versions(S, h, d)}
    IN IF d \notin DOMAIN S.hist THEN {<<>>}
       ELSE IF Locked(S, d, "retrieve") THEN (IF open THEN vs \cup {<<>>} ELSE {<<>>}) ELSE vs
PickedBy(S, d, c, req) == IF c = <<>> THEN {} ELSE Picked(S, d, c[1], req)
AllV(S, d) == UNION { {S.hist[d][n][p].v : p \in DOMAIN S.hist[d][n]} : n \in 1..Len(S.hist[d]) }
\* the choices for d that give exactly the values observed of it
Explains(S, h, d, req, saw) ==
    {c \in RetrieveChoices(S, h, d) : {x.v : x \in PickedBy(S, d, c, req)} = saw}
\* the oldest explaining version: it allows every later answer the others allow
Oldest(cs) == IF cs = {<<>>} THEN <<>> ELSE <<Min({c[1] : c \in cs \ {<<>>}})>>
RetrieveSeen(S, h, req, f) ==
    LET seen == {d \in DOMAIN f : f[d] # <<>>} IN
    [S EXCEPT !.rd = [k \in {<<h, d>> : d \in seen} |-> f[k[2]][1]] @@ S.rd]

ForgetReaders(S, d) == [S EXCEPT !.rd = DropAll(S.rd, {k \in DOMAIN S.rd : k[2] = d})]

(***************************************************************************)
(* Overlays and moves                                                      *)
(***************************************************************************)
Mounts(S, src, tgt) == LET c == S.cats[tgt] IN
    {i \in 1..Len(c.toc) : "db" \in DOMAIN c.toc[i] /\ c.toc[i].db = src /\ c.toc[i].loc = S.cats[src].loc /\ c.toc[i].id \notin MaskedIn(c.toc)}
\* does the mount contribute anything now?
Shows(S, src, tgt) == Mounts(S, src, tgt) # {} /\ FlatToc(S.cats, S.cats[tgt], SelectSeq(S.cats[tgt].toc,
                        LAMBDA r : r.t \in {"CLR", "ALL"} \/ ("db" \in DOMAIN r /\ r.db = src)), {}, 5) # <<>>
OverlayRefused(S, src, tgt, vkeys, remove, force) ==
    \/ src = tgt \/ src \notin DOMAIN S.cats
    \/ \E x \in DOMAIN src : src[x] # tgt[x] /\ x \notin vkeys
    \/ remove /\ (tgt \notin DOMAIN S.cats \/ ~Shows(S, src, tgt))
    \/ ~remove /\ tgt \in DOMAIN S.cats /\ ~force
Overlay(S0, src, tgt) ==
    LET S == TouchCat(S0, tgt)
        r == [t |-> "SUB", id |-> S.nid + 1, db |-> src, loc |-> S.cats[src].loc]
    IN Note([S EXCEPT !.nid = @ + 1, !.cats = Put(@, tgt, [@[tgt] EXCEPT !.toc = Append(@, r)])], tgt)
Unmount(S, src, tgt) ==
    LET c == S.cats[tgt]
        ids == {c.toc[i].id : i \in Mounts(S, src, tgt)}
    IN Note([S EXCEPT !.cats = Put(@, tgt, [c EXCEPT !.toc = Append(@, [t |-> "CLR", id |-> 0, ids |-> ids])])], tgt)

\* moving locks the source; once everything is at the destination the source goes, with its locks.
\* Mounts of it elsewhere point to where it was.
LockForMove(S, d) == [S EXCEPT !.cats = Put(@, d, [@[d] EXCEPT !.locks = @ \cup {"archive", "wipe"}])]
Move(S, d, loc) == LET T == ForgetReaders([S EXCEPT !.cats = Put(@, d, [@[d] EXCEPT !.locks = {}, !.loc = loc])], d)
                   IN FoldS(NoteOne, T, Mounting(T))

(***************************************************************************)
(* Administration                                                          *)
(***************************************************************************)
LockNames == {"list", "retrieve", "archive", "wipe"}
Control(S, req, disable, ids) ==
    LET ds == DbsFor(S, req) IN
    [S EXCEPT !.cats = [d \in DOMAIN S.cats |->
        IF d \in ds THEN [S.cats[d] EXCEPT !.locks = IF disable THEN @ \cup ids ELSE @ \ ids] ELSE S.cats[d]]]

Clear(S, d, ids) == IF ids = {} THEN S
    ELSE LET c == S.cats[d] IN Note([S EXCEPT !.cats = Put(S.cats, d, [c EXCEPT !.toc = Append(@, [t |-> "CLR", id |-> 0, ids |-> ids])])], d)

\* index records that exist in the table of contents but are masked there (with those of masked sub-tocs)
MaskedRecs(c) ==
    LET m == MaskedIn(c.toc) IN
    {c.toc[i] : i \in {j \in 1..Len(c.toc) : c.toc[j].t = "IDX" /\ c.toc[j].id \in m}}
    \cup UNION { {c.subs[s][i] : i \in {j \in 1..Len(c.subs[s]) : c.subs[s][j].t = "IDX"}} :
                 s \in {c.toc[i].id : i \in {j \in 1..Len(c.toc) : c.toc[j].t = "SUB" /\ c.toc[j].id \in m /\ "db" \notin DOMAIN c.toc[j]}} }
MaskedSubs(c) == LET m == MaskedIn(c.toc) IN
    {<<"toc", c.toc[i].id>> : i \in {j \in 1..Len(c.toc) : c.toc[j].t = "SUB" /\ c.toc[j].id \in m /\ "db" \notin DOMAIN c.toc[j]}}
DataOf(r) == {r.ents[x].f : x \in DOMAIN r.ents}
\* what a clean-up may touch: files of this database only
OwnFiles(S, d) == S.fs[d]

\* purge: mask index records whose entries are all superseded, delete the files nothing visible refers to.
\* Data outside the database takes no part: it supersedes nothing, and keeps its index record
PurgeDb(S, d) ==
    LET c == S.cats[d]
        ixs == Indexes(S, d)
        N == Newest({e \in Entries(S, d, Empty) : e[5][1] # "ext"})
        mixed == {i \in 1..Len(ixs) : \E f \in DataOf(ixs[i]) : f[1] = "ext"}
        dead == {ixs[i].id : i \in {j \in 1..Len(ixs) \ mixed : ~\E e \in N : e[1] = j}}
        recs == ToSet(ixs) \cup MaskedRecs(c)
        cand == UNION {DataOf(r) : r \in recs} \cup {r.xf : r \in recs} \cup MaskedSubs(c)
        live == {e[5] : e \in N} \cup {ixs[e[1]].xf : e \in N} \cup {ixs[i].xf : i \in mixed}
    IN [Clear(S, d, dead) EXCEPT !.fs = Put(@, d, @[d] \ ({f \in cand : f[1] # "ext"} \ live))]

\* a purge does not deal with masked data outside the database
\* (an index file also remembers files it no longer has entries for)
PurgeMayFail(S, d) == MaskedRecs(S.cats[d]) # {} /\ \E f \in S.fs[d] : f[1] = "ext"
PurgeFails(S, d) == \E r \in MaskedRecs(S.cats[d]) : \E f \in DataOf(r) : f[1] = "ext"

HideDb(S, d) == LET c == S.cats[d] IN
    Note([S EXCEPT !.cats = Put(S.cats, d, [c EXCEPT !.toc = Append(@, [t |-> "ALL", id |-> 0])])], d)

\* removing a whole database
Forget(S, d) ==
    LET T == ForgetReaders([S EXCEPT !.cats = Drop(@, d), !.hist = Drop(@, d), !.fs = Drop(@, d), !.junk = Drop(@, d)], d)
    IN FoldS(NoteOne, T, Mounting(T))

\* wipe works at index granularity: an index is selected when the residual request (without the database
\* keywords) is covered by, and matches, its key; with nothing left over the whole database goes
WipeSel(S, d, req) ==
    LET res == DOMAIN req \ DOMAIN d IN
    {r \in ToSet(Indexes(S, d)) : res \subseteq DOMAIN r.ik /\ \A x \in res : r.ik[x] \in req[x]}
WipesAll(S, d, req) == WipeSel(S, d, req) = ToSet(Indexes(S, d))
WipeDb(S, d, req) ==
    LET sel == WipeSel(S, d, req) IN
    IF WipesAll(S, d, req) THEN Forget(S, d)
    ELSE ForgetReaders([Clear(S, d, {r.id : r \in sel}) EXCEPT
            !.fs = Put(@, d, @[d] \ UNION {DataOf(r) \cup {r.xf} : r \in sel})], d)
\* databases the wipe refuses: locked ones, and unclean ones it would have to remove
WipeRefuses(S, d, req, doit, unsafe) ==
    \/ Locked(S, d, "wipe")
    \/ doit /\ ~unsafe /\ WipesAll(S, d, req) /\ S.junk[d] # {}
WipeMany(S, ds, req) == LET op(T, d) == WipeDb(T, d, req) IN FoldS(op, S, ds)

\* files seen in a database directory
FileCounts(S, d) ==
    [data |-> Cardinality({f \in S.fs[d] : f[1] = "data"}), index |-> Cardinality({f \in S.fs[d] : f[1] = "index"}),
     sub |-> Cardinality({f \in S.fs[d] : f[1] = "toc"}), junk |-> Cardinality(S.junk[d])]
\* nothing visible ever refers to a file that is gone
NoDangling(S) == \A d \in DOMAIN S.cats : \A i \in 1..Len(Indexes(S, d)) :
    LET r == Indexes(S, d)[i] IN ("foreign" \in DOMAIN r) \/ (DataOf(r) \cup {r.xf} \subseteq S.fs[d])
=============================================================================
