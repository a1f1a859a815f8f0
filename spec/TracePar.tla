------------------------------ MODULE TracePar ------------------------------
(* Conformance of executions with sections in which several threads call one or
   more handles at the same time ("par" events): some interleaving of the atomic
   steps the calls are made of must explain every result.

     archive   stores the field and calls back; then marks the handle as changed
     flush     publishes one index after the other; archives of the handle wait
     queries   look at one database after the other
   A call starts after all calls that returned before it began.                 *)
EXTENDS TraceStore

VARIABLE pp     \* progress of the calls of the section that have started: call -> record
pvars == <<tid, l, S, br, pp>>

Calls == Ev.calls
Started(i) == i \in DOMAIN pp
Finished(i) == Started(i) /\ pp[i].done
May(i) == ~Started(i) /\ \A j \in 1..Len(Calls) : Calls[j].e < Calls[i].s => Finished(j)
Flushing(h) == \E j \in DOMAIN pp : Calls[j].op = "flush" /\ Calls[j].h = h /\ ~pp[j].done
Over(i) == pp' = Put(pp, i, [done |-> TRUE])
Goes(i, r) == pp' = Put(pp, i, [done |-> FALSE] @@ r)

FlushOne(S0, k, ik) ==      \* publish one index of a session
    LET s == S0.ws[k]
        only == [S0 EXCEPT !.ws = Put(@, k, [s EXCEPT !.pend = ik :> s.pend[ik]])]
        T == FlushSession(only, k)
    IN [T EXCEPT !.ws = Put(@, k, [T.ws[k] EXCEPT !.pend = Drop(s.pend, ik)])]
PendingOf(h) == {x \in Sessions(S, h) \X UNION {DOMAIN S.ws[k].pend : k \in Sessions(S, h)} :
                    x[2] \in DOMAIN S.ws[x[1]].pend /\ S.ws[x[1]].pend[x[2]] # Empty}

\* the callbacks, called under the lock that orders the archives of a handle, tell that order
Next_(h) == LET o == Get(Ev.order, h, <<>>)
                n == Cardinality({j \in DOMAIN pp : Calls[j].op = "archive" /\ Calls[j].h = h /\ Calls[j].res = "ok"})
            IN IF n < Len(o) THEN o[n + 1] ELSE -1
Watched(h) == \E j \in 1..Len(Calls) : Calls[j].op \in {"flush", "dirty"} /\ Calls[j].h = h /\ ~Finished(j)
IsQuery(c) == c.op \in {"list", "axes", "retrieve", "inspect", "dirty"}
Queried == \E j \in 1..Len(Calls) : IsQuery(Calls[j]) /\ ~Finished(j)

\* a retrieve under way may come across (and keep open) a database that has just been made
Found(U, i, c) ==
    LET d == Part(c.key, S.sch.db)
        hs == {Calls[j].h : j \in {j \in 1..Len(Calls) : Calls[j].op \in {"retrieve", "inspect"} /\ Calls[j].e > c.s /\ Calls[j].s < c.e}}
    IN IF d \in DOMAIN S.cats THEN U ELSE [U EXCEPT !.rd = [k \in {<<h, d>> : h \in hs} |-> 1] @@ @]
PArchive(i, c) ==
    \/ /\ May(i) /\ ~Flushing(c.h)
       /\ c.res = "ok" => Next_(c.h) = c.v
       /\ \E r \in Archive(S, c.h, c.key, c.v, c.len) :
            /\ r[1] = c.res
            /\ LET T == Found(Called(r[2], c.h, c.key, c.v, c.len), i, c) IN
               IF c.res # "ok" THEN S' = r[2] /\ Over(i)
               ELSE IF Watched(c.h) /\ c.h \notin S.dirty THEN S' = [T EXCEPT !.dirty = S.dirty] /\ Goes(i, Empty)
               ELSE S' = T /\ IF Watched(c.h) THEN Goes(i, Empty) ELSE Over(i)
    \/ /\ Started(i) /\ ~Finished(i)
       /\ S' = [S EXCEPT !.dirty = @ \cup {c.h}] /\ Over(i)

PFlush(i, c) ==
    \/ /\ May(i) /\ ~Flushing(c.h)
       /\ c.res = "ok"
       /\ IF c.h \notin S.dirty THEN S' = S /\ Over(i)
          ELSE IF Queried THEN S' = S /\ Goes(i, Empty)
          ELSE S' = FlushHandle(FlushCalled(S, c.h), c.h) /\ Over(i)
    \/ /\ Started(i) /\ ~Finished(i)
       /\ IF PendingOf(c.h) = {} THEN S' = FlushCalled(S, c.h) /\ Over(i)
          ELSE \E x \in PendingOf(c.h) : S' = FlushOne(S, x[1], x[2]) /\ pp' = pp

(* Queries look at one database after the other: those there were at the start, perhaps those found in the
   meantime. A look changes nothing that restricts what may follow, so it is taken as soon as it explains what
   was observed. *)
OfDb(c, d) == CASE c.op \in {"list", "inspect"} -> {j \in 1..Len(c.obs) : IsOf(c.obs[j].k, d)}
                [] c.op = "axes" -> {j \in 1..Len(c.obs) : c.obs[j].key = d}
                [] c.op = "retrieve" -> {j \in 1..Len(c.vs) : c.vs[j] > 0 /\ Traces[tid].vdb[c.vs[j]] = d}
Saw(c, d) == {IF c.op = "inspect" THEN c.obs[j].v ELSE c.vs[j] : j \in OfDb(c, d)}
FitsList(c, d) ==
    LET E0 == Entries(S, d, Req(c))
        E == CASE c.mode = "full" -> E0 [] c.mode = "dedup" -> Newest(E0) [] c.mode = "dups" -> Masked(E0)
        obs == SelectSeq(c.obs, LAMBDA o : IsOf(o.k, d))
        Ordered(k) == LET q == SetToSortSeq({x \in E : x[2] = k}, LAMBDA x, y : x[1] < y[1])
                      IN [j \in 1..Len(q) |-> El(q[j])]
    IN BagOf(E) = SeqBag(obs) /\ \A k \in {x[2] : x \in E} : Ordered(k) = SelectSeq(obs, LAMBDA o : o.k = k)
FitsAxes(c, d) == {AxesOf(S, d, Req(c), c.level)} = {[x \in DOMAIN c.obs[j].axes |-> ToSet(c.obs[j].axes[x])] : j \in OfDb(c, d)}
                  /\ Cardinality(OfDb(c, d)) = 1
FitsFields(c, d) ==
    LET ex == Explains(S, c.h, d, Req(c), Saw(c, d)) IN
    /\ ex # {}
    /\ Cardinality(Saw(c, d)) = Cardinality(OfDb(c, d))
    /\ c.op = "inspect" => PickedBy(S, d, Oldest(ex), Req(c)) = {c.obs[j] : j \in OfDb(c, d)}
Fits(c, d) == CASE c.op = "list" -> FitsList(c, d) [] c.op = "axes" -> FitsAxes(c, d) [] OTHER -> FitsFields(c, d)
Seen_(c, d) == IF c.op \in {"list", "axes"} THEN S ELSE RetrieveSeen(S, c.h, Req(c), d :> Oldest(Explains(S, c.h, d, Req(c), Saw(c, d))))
Dbs(c) == DbsFor(S, Req(c))
Ahead(i, c) == {d \in Dbs(c) \ pp[i].got : Fits(c, d)}
QReady(i, c) == /\ IsQuery(c) /\ ~Finished(i) /\ c.res = "ok"
                /\ IF c.op = "dirty" THEN May(i) /\ c.dirty = (c.h \in S.dirty)
                   ELSE IF ~Started(i) THEN May(i) ELSE Ahead(i, c) # {}
QStep(i, c) ==
    IF c.op = "dirty" THEN S' = S /\ Over(i)
    ELSE IF ~Started(i) THEN S' = S /\ IF Dbs(c) = {} /\ c.n = 0 THEN Over(i) ELSE Goes(i, [must |-> Dbs(c), got |-> {}, n |-> 0])
    ELSE LET d == CHOOSE d \in Ahead(i, c) : TRUE
             got == pp[i].got \cup {d}
             n == pp[i].n + Cardinality(OfDb(c, d))
         IN /\ S' = Seen_(c, d)
            /\ IF pp[i].must \subseteq got /\ n = c.n THEN Over(i) ELSE Goes(i, [must |-> pp[i].must, got |-> got, n |-> n])

PSection ==
    LET Q == {i \in 1..Len(Calls) : QReady(i, Calls[i])} IN
    IF Q # {} THEN QStep(Min(Q), Calls[Min(Q)])
    ELSE \E i \in 1..Len(Calls) : ~Finished(i) /\ CASE Calls[i].op = "archive" -> PArchive(i, Calls[i])
                                                   [] Calls[i].op = "flush" -> PFlush(i, Calls[i])
                                                   [] OTHER -> FALSE

\* after threads archived different keys in an unknown order: each called back once, readable at its location
DoScbs(e) ==
    LET c == Get(S.cb, e.h, <<>>) IN
    /\ Eq("ok", e.res)
    /\ Eq(SeqBag(c), SeqBag([i \in 1..Len(e.cbs) |-> [k |-> e.cbs[i].key, v |-> e.cbs[i].v, len |-> e.cbs[i].len]]))
    /\ \A i \in 1..Len(e.cbs) : Eq([loc |-> TRUE, llen |-> e.cbs[i].len, rv |-> e.cbs[i].v],
                                    [loc |-> e.cbs[i].loc, llen |-> e.cbs[i].llen, rv |-> e.cbs[i].rv])
    /\ S' = [S EXCEPT !.cb = Put(@, e.h, <<>>), !.fc = Put(@, e.h, 0)]

\* too many interleavings to go through: given up, counted
Cap == 3000
CReg(t) == 1000 * t + 1
ASSUME \A t \in 1..Len(Traces) : TLCSet(CReg(t), 0)
PProgress == Progress /\ TLCSet(CReg(tid), TLCGet(CReg(tid)) + 1)
PAccepted == Accepted /\ PrintT(<<"CAPPED", Cardinality({t \in 1..Len(Traces) : TLCGet(CReg(t)) > Cap})>>)

AllDone == \A i \in 1..Len(Calls) : Finished(i)
PNext ==
    /\ l <= Len(Traces[tid].ev)
    /\ tid' = tid /\ br' = br
    /\ IF TLCGet(CReg(tid)) > Cap THEN l' = Len(Traces[tid].ev) + 1 /\ S' = S /\ pp' = Empty
       ELSE IF Ev.op = "scbs" THEN DoScbs(Ev) /\ l' = l + 1 /\ pp' = pp
       ELSE IF Ev.op # "par" THEN Step(Ev) /\ l' = l + 1 /\ pp' = pp
       ELSE IF AllDone THEN S' = S /\ l' = l + 1 /\ pp' = Empty
       ELSE l' = l /\ PSection

\* states that differ only in the names of files and records, or in the order of unrelated indexes, are the same
Trim(h) == [ik \in {h[i].ik : i \in 1..Len(h)} |-> LET q == SelectSeq(h, LAMBDA r : r.ik = ik) IN
              [i \in 1..Len(q) |-> [dt \in DOMAIN q[i].ents |-> q[i].ents[dt].v]]]
Old(d) == LET rs == {S.rd[k] : k \in {x \in DOMAIN S.rd : x[2] = d}} IN IF rs = {} THEN Len(S.hist[d]) ELSE Min(rs)
PView == <<tid, l, br, pp, S.dirty, S.cb, S.fc, S.subh, S.cbh,
    [d \in DOMAIN S.cats |-> <<Trim(Indexes(S, d)), S.cats[d].locks, FileCounts(S, d), SubSeq(S.hist[d], Old(d), Len(S.hist[d])),
                               {<<k[1], S.rd[k] - Old(d)>> : k \in {x \in DOMAIN S.rd : x[2] = d}}>>],
    [k \in DOMAIN S.ws |-> <<[ik \in DOMAIN S.ws[k].pend |-> [dt \in DOMAIN S.ws[k].pend[ik] |-> S.ws[k].pend[ik][dt].v]],
                             [ik \in DOMAIN S.ws[k].full |-> [dt \in DOMAIN S.ws[k].full[ik] |-> S.ws[k].full[ik][dt].v]], S.ws[k].sub = 0>>]>>

PInit == Init /\ pp = Empty
PSpec == PInit /\ [][PNext]_pvars
=============================================================================
