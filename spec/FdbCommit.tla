------------------------------ MODULE FdbCommit ------------------------------
(* The commit protocol of the TOC catalogue below the API: what reaches the
   file system, in which order, and what a reader, a crash (kill) or a power loss
   makes of it.  It refines FdbStore: the catalogue part of the state (cats, ws,
   hist) is the same; a flush is no longer one step but the appends to the tables
   of contents it consists of, each of which is one atomic step.

   C (file state):
     len    file -> number of bytes
     dirty  file -> offsets of writes since the file was last forced to storage
     pub    file -> bytes that published index records rely on (immutable from then on)
     first  toc file -> bytes of its first record
     nrec   toc file -> number of whole records;  dur: number of them known durable  *)
EXTENDS FdbStore

InitC == [len |-> Empty, dirty |-> Empty, pub |-> Empty, first |-> Empty, nrec |-> Empty, dur |-> Empty]

Dirty(C, f) == Get(C.dirty, f, {})
Exists(C, f) == f \in DOMAIN C.len

Creat(C, f) == [C EXCEPT !.len = Put(@, f, 0), !.dirty = Put(@, f, {}), !.pub = Put(@, f, 0), !.nrec = Put(@, f, 0), !.dur = Put(@, f, 0)]
Write(C, f, off, n) == [C EXCEPT !.len = Put(@, f, IF off + n > Get(C.len, f, 0) THEN off + n ELSE Get(C.len, f, 0)),
                                 !.dirty = Put(@, f, Dirty(C, f) \cup {off})]
\* published bytes never change
WriteAllowed(C, f, off) == off >= Get(C.pub, f, 0)
Sync(C, f) == [C EXCEPT !.dirty = Put(@, f, {}), !.dur = Put(@, f, Get(C.nrec, f, 0))]
AppendRecs(C, f, off, n, recs) ==
    [Write(C, f, off, n) EXCEPT !.nrec = Put(@, f, Get(@, f, 0) + recs), !.first = IF f \in DOMAIN @ THEN @ ELSE Put(@, f, n)]
MoveFile(C, f, g) ==
    LET mv(m) == IF f \in DOMAIN m THEN Put(Drop(m, f), g, m[f]) ELSE m
    IN [C EXCEPT !.len = mv(@), !.dirty = mv(@), !.pub = mv(@), !.nrec = mv(@), !.dur = mv(@)]
RemoveFile(C, f) == [C EXCEPT !.len = Drop(@, f), !.dirty = Drop(@, f), !.pub = Drop(@, f), !.first = Drop(@, f),
                          !.nrec = Drop(@, f), !.dur = Drop(@, f)]

(* An index record may be appended only when everything it relies on has been
   written and forced to storage: the index block at `off`, the data files.      *)
RefsDurable(C, idx, off, data) ==
    /\ Exists(C, idx)
    /\ \A o \in Dirty(C, idx) : o < off
    /\ \A f \in data : Exists(C, f) /\ Dirty(C, f) = {}
Publish(C, idx, data) ==
    [C EXCEPT !.pub = [f \in data \cup {idx} |-> C.len[f]] @@ @]

(***************************************************************************)
(* Catalogue steps: one append to one table of contents                     *)
(***************************************************************************)
\* database directory present but not initialised: invisible
CatOf(S, d) == Get(S.cats, d, [toc |-> <<>>, subs |-> Empty, locks |-> {}])
WithInit(S, d) == IF d \in DOMAIN S.cats THEN S
                  ELSE [S EXCEPT !.cats = Put(@, d, [toc |-> <<[t |-> "INIT", id |-> 0]>>, subs |-> Empty, locks |-> {}]),
                                 !.hist = Put(@, d, <<Empty>>), !.fs = Put(@, d, {}), !.junk = Put(@, d, {})]

\* entries of process p for index ik of d that are not yet published
Pending(S, p, d, ik) == IF <<p, d>> \in DOMAIN S.ws THEN Get(S.ws[<<p, d>>].pend, ik, Empty) ELSE Empty
FullOf(S, p, d, ik) == IF <<p, d>> \in DOMAIN S.ws THEN Get(S.ws[<<p, d>>].full, ik, Empty) ELSE Empty

\* index record r published in table sid (0 = the main one) of d
AppendIdx(S, p, d, sid, r) ==
    LET k == <<p, d>>
        rec == [t |-> "IDX", id |-> r.id, ik |-> r.ik, ents |-> Pending(S, p, d, r.ik), xf |-> <<"x", r.id>>, idx |-> r.idx, data |-> ToSet(r.data)]
        c == S.cats[d]
        c2 == IF sid = 0 THEN [c EXCEPT !.toc = Append(@, rec)]
              ELSE [c EXCEPT !.subs = Put(@, sid, Append(Get(@, sid, <<>>), rec))]
        S2 == [S EXCEPT !.cats = Put(@, d, c2)]
    IN Note(IF k \in DOMAIN S.ws THEN [S2 EXCEPT !.ws = Put(@, k, [S.ws[k] EXCEPT !.pend = Put(@, r.ik, Empty)])] ELSE S2, d)
AppendSub(S, p, d, id) ==
    LET k == <<p, d>> IN
    Note([S EXCEPT !.cats = Put(@, d, [S.cats[d] EXCEPT !.toc = Append(@, [t |-> "SUB", id |-> id]), !.subs = Put(@, id, Get(@, id, <<>>))]),
                   !.ws = IF k \in DOMAIN @ THEN Put(@, k, [S.ws[k] EXCEPT !.sub = id]) ELSE @], d)
\* compaction: consolidated indexes and the mask of the private table, one append; it ends the session's table
AppendCompact(S, p, d, rs, sub) ==
    LET recs == [i \in 1..Len(rs) |-> [t |-> "IDX", id |-> rs[i].id, ik |-> rs[i].ik, ents |-> FullOf(S, p, d, rs[i].ik),
                                       xf |-> <<"x", rs[i].id>>, idx |-> rs[i].idx, data |-> ToSet(rs[i].data)]]
        k == <<p, d>>
    IN Note([S EXCEPT !.cats = Put(@, d, [S.cats[d] EXCEPT !.toc = @ \o recs \o <<[t |-> "CLR", id |-> 0, ids |-> {sub}]>>]),
                      !.ws = Put(@, k, [S.ws[k] EXCEPT !.full = Empty, !.sub = 0])], d)
AppendClear(S, d, ids) ==
    Note([S EXCEPT !.cats = Put(@, d, [S.cats[d] EXCEPT !.toc = Append(@, [t |-> "CLR", id |-> 0, ids |-> ids])])], d)

\* nothing of p's sessions waits to be published
Settled(S, p) == \A k \in Sessions(S, p) : \A ik \in DOMAIN S.ws[k].pend : S.ws[k].pend[ik] = Empty

SettledDb(S, p, d) == \A ik \in DOMAIN S.ws[<<p, d>>].pend : S.ws[<<p, d>>].pend[ik] = Empty

(***************************************************************************)
(* Failures                                                                 *)
(***************************************************************************)
KillProc(S, p) == [S EXCEPT !.ws = DropAll(@, Sessions(S, p)), !.rd = DropAll(@, {k \in DOMAIN @ : k[1] = p}), !.subh = @ \ {p}]

\* the tables of contents after a power loss: durable prefixes, or everything for those in keep
Cut(toc, n) == SubSeq(toc, 1, IF n < Len(toc) THEN n ELSE Len(toc))
PowerLoss(S, C, tocf(_), subf(_, _), keep) ==
    LET n(f, k) == IF f \in keep THEN k ELSE Get(C.dur, f, 0)
        cats == [d \in DOMAIN S.cats |->
                   [S.cats[d] EXCEPT !.toc = Cut(@, n(tocf(d), Len(@))),
                                     !.subs = [s \in DOMAIN @ |-> Cut(@[s], IF subf(d, s) \in keep THEN Len(@[s])
                                                                      ELSE LET k == Get(C.dur, subf(d, s), 0) IN IF k = 0 THEN 0 ELSE k - 1)]]]
        S2 == [S EXCEPT !.cats = [d \in {x \in DOMAIN cats : cats[x].toc # <<>>} |-> cats[d]], !.ws = Empty, !.rd = Empty, !.subh = {}]
    IN [S2 EXCEPT !.hist = [d \in DOMAIN S2.cats |-> <<VisMap(Indexes(S2, d))>>]]

(***************************************************************************)
(* Concurrent reads                                                         *)
(***************************************************************************)
\* the view of a reader that saw the first m records of the main table and the first n[s] of each private one
View(S, d, m, n) ==
    LET c == S.cats[d]
        c2 == [c EXCEPT !.toc = Cut(@, m), !.subs = [s \in DOMAIN @ |-> Cut(@[s], Get(n, s, Len(@[s])))]]
    IN VisMap(Reverse(FlatToc(Put(S.cats, d, c2), c2, c2.toc, {}, 2)))
Lens(S) == [d \in DOMAIN S.cats |-> [main |-> Len(S.cats[d].toc), subs |-> [s \in DOMAIN S.cats[d].subs |-> Len(S.cats[d].subs[s])]]]
\* all views between the lengths lo (when the read began) and now
Views(S, d, lo) ==
    LET c == S.cats[d]
        l0 == Get(lo, d, [main |-> 0, subs |-> Empty])
        low(s) == Get(l0.subs, s, 0)
        grown == {s \in DOMAIN c.subs : low(s) < Len(c.subs[s])}
        choices == {f \in [grown -> 0..Max({0} \cup {Len(c.subs[s]) : s \in grown})] : \A s \in grown : f[s] \in low(s)..Len(c.subs[s])}
    IN {View(S, d, m, n) : m \in l0.main..Len(c.toc), n \in choices}
\* what a de-duplicated listing or retrieve of all fields matching req shows of a view
Shown(d, vm, req) == {[k |-> d @@ q[1] @@ q[2], v |-> vm[q].v, len |-> vm[q].len] :
                       q \in {x \in DOMAIN vm : Match(d, req) /\ Match(x[1], req) /\ Match(x[2], req)}}
=============================================================================
