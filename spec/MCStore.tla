------------------------------- MODULE MCStore -------------------------------
(* Exhaustive check of FdbStore within small constants: every interleaving of
   archive / flush / close of several handles (any mixture of sub-toc mode when
   SubHandles is not empty), purge, hide, wipe and control, against a ghost that
   knows only "the newest flushed value of every key".                          *)
EXTENDS FdbStore
CONSTANTS Handles, SubHandles, Dbs, Ixs, Dts, MaxV, MaxAdmin, MaxDb, Exclusive
VARIABLES S, ghost
vars == <<S, ghost>>

MSch == [db |-> {"d"}, ix |-> {"i"}, dt |-> {"t"}]
Keys == [d : Dbs, i : Ixs, t : Dts]
DK(x) == [d |-> x]

Init == /\ S = FoldS(LAMBDA T, h : OpenHandle(T, h, h \in SubHandles), InitS(MSch, [maxdb |-> MaxDb]), Handles)
        /\ ghost = [pend |-> [h \in Handles |-> <<>>], vis |-> Empty, v |-> 0, adm |-> 0, all |-> {}, last |-> Empty]

\* publish the pending entries q of one handle
Publish(vis, q) == FoldLeft(LAMBDA m, x : Put(m, x[1], x[2]), vis, q)
Keep(q, P(_)) == SelectSeq(q, P)

DoArchive(h, key) ==
    /\ ghost.v < MaxV
    \* Exclusive: a key changes writer only while no other session is open (see known finding KF1: sub-toc order)
    /\ Exclusive => \/ Get(ghost.last, key, h) = h
                    \/ \A k \in DOMAIN S.ws : k[2] # DK(key.d) \/ (k[1] = h /\ ~S.ws[k].usesub)
    /\ \E r \in Archive(S, h, key, ghost.v + 1, 10) :
         LET gone == {k[2].d : k \in (DOMAIN S.ws \ DOMAIN r[2].ws)}      \* sessions evicted to make room: published
             q == ghost.pend[h]
             vis2 == Publish(ghost.vis, Keep(q, LAMBDA x : x[1].d \in gone))
             q2 == Keep(q, LAMBDA x : x[1].d \notin gone)
         IN /\ S' = r[2]
            /\ ghost' = [ghost EXCEPT !.v = @ + 1, !.vis = vis2, !.last = IF Exclusive THEN Put(@, key, h) ELSE @,
                           !.pend[h] = IF r[1] = "ok" THEN Append(q2, <<key, ghost.v + 1>>) ELSE q2,
                           !.all = IF r[1] = "ok" THEN @ \cup {<<key, ghost.v + 1>>} ELSE @]
DoFlush(h) == /\ ghost.pend[h] # <<>>
              /\ S' = FlushHandle(S, h)
              /\ ghost' = [ghost EXCEPT !.vis = Publish(@, ghost.pend[h]), !.pend[h] = <<>>]
DoClose(h) == /\ Sessions(S, h) # {}
              /\ S' = OpenHandle(CloseHandle(S, h), h, h \in SubHandles)
              /\ ghost' = [ghost EXCEPT !.vis = Publish(@, ghost.pend[h]), !.pend[h] = <<>>]

Idle(x) == \A k \in DOMAIN S.ws : k[2] # DK(x)
Admin == ghost.adm < MaxAdmin
Step(T) == S' = T
DoPurge(x) == /\ Admin /\ DK(x) \in DOMAIN S.cats /\ Idle(x)
              /\ S' = PurgeDb(S, DK(x)) /\ ghost' = [ghost EXCEPT !.adm = @ + 1]
DoHide(x) == /\ Admin /\ DK(x) \in DOMAIN S.cats /\ Idle(x)
             /\ S' = HideDb(S, DK(x))
             /\ ghost' = [ghost EXCEPT !.adm = @ + 1, !.vis = [k \in {y \in DOMAIN @ : y.d # x} |-> @[k]]]
DoWipe(x, req) == /\ Admin /\ DK(x) \in DOMAIN S.cats /\ Idle(x)
                  /\ ~WipeRefuses(S, DK(x), req, TRUE, FALSE)
                  /\ S' = WipeDb(S, DK(x), req)
                  /\ ghost' = [ghost EXCEPT !.adm = @ + 1,
                        !.vis = [k \in {y \in DOMAIN @ : y.d # x \/ ~(DOMAIN req \subseteq {"d", "i"} /\ Match(y, req))} |-> @[k]]]
DoControl(x, dis) == /\ Admin /\ DK(x) \in DOMAIN S.cats
                     /\ S' = Control(S, [d |-> {x}], dis, {"archive", "wipe"})
                     /\ ghost' = [ghost EXCEPT !.adm = @ + 1]

Reqs(x) == {[d |-> {x}], [d |-> {x}, t |-> Dts]} \cup {[d |-> {x}, i |-> {y}] : y \in Ixs}

Next == \/ \E h \in Handles : (\E k \in Keys : DoArchive(h, k)) \/ DoFlush(h) \/ DoClose(h)
        \/ \E x \in Dbs : DoPurge(x) \/ DoHide(x) \/ (\E r \in Reqs(x) : DoWipe(x, r)) \/ (\E b \in BOOLEAN : DoControl(x, b))
Spec == Init /\ [][Next]_vars

\* visible content of the model, in the ghost's terms
Visible(T) == LET m == [d \in DOMAIN T.cats |-> VisMap(Indexes(T, d))] IN
    [k \in UNION {{d @@ p[1] @@ p[2] : p \in DOMAIN m[d]} : d \in DOMAIN T.cats} |->
        m[DK(k.d)][<<[i |-> k.i], [t |-> k.t]>>].v]

\* F01, F02: exactly the newest flushed version of every key is visible
InvNewest == Visible(S) = ghost.vis
\* F02: de-duplicated listing = what can be retrieved; full = dedup + dups
InvModes == \A d \in DOMAIN S.cats :
    LET E == Entries(S, d, Empty) IN
    /\ {<<e[2], e[3]>> : e \in Newest(E)} = {<<k, ghost.vis[k]>> : k \in {y \in DOMAIN ghost.vis : DK(y.d) = d}}
    /\ Cardinality(Newest(E)) + Cardinality(Masked(E)) = Cardinality(E)
    /\ \A e \in E : <<e[2], e[3]>> \in ghost.all
InvFiles == NoDangling(S)
\* F06: nothing that was not flushed is visible
InvUnflushed == \A h \in Handles : \A n \in 1..Len(ghost.pend[h]) :
    \A k \in DOMAIN ghost.vis : ghost.vis[k] # ghost.pend[h][n][2]
\* F10: purging an idle database changes nothing visible, leaves no dangling reference, and repeats as a no-op
InvPurge == \A x \in Dbs : (DK(x) \in DOMAIN S.cats /\ Idle(x)) =>
    LET P == PurgeDb(S, DK(x)) IN
    /\ Visible(P) = Visible(S)
    /\ NoDangling(P)
    /\ PurgeDb(P, DK(x)).fs = P.fs /\ PurgeDb(P, DK(x)).cats = P.cats
    \* no duplicate is left in an index that held only superseded fields
    /\ \A i \in 1..Len(Indexes(P, DK(x))) : \E e \in Newest(Entries(P, DK(x), Empty)) : e[1] = i
\* F09: wiping one index leaves the others; over-specified requests remove nothing visible; nothing dangles
InvWipe == \A x \in Dbs : (DK(x) \in DOMAIN S.cats /\ Idle(x)) =>
    \A r \in Reqs(x) : LET W == WipeDb(S, DK(x), r) IN
    /\ NoDangling(W)
    /\ DOMAIN Visible(W) = {k \in DOMAIN ghost.vis : k.d # x \/ "t" \in DOMAIN r \/ ~Match(k, r)}
    /\ \A k \in DOMAIN Visible(W) : Visible(W)[k] = ghost.vis[k]
\* F07: statistics and axes agree with the entries
InvStats == \A d \in DOMAIN S.cats : LET s == StatsOf(S, d) IN
    /\ s.fields - s.dups = Cardinality({k \in DOMAIN ghost.vis : DK(k.d) = d})
    /\ s.fsize = 10 * s.fields /\ s.dsize = 10 * s.dups
View == <<[S EXCEPT !.hist = Empty, !.rd = Empty, !.nid = 0], ghost.pend, ghost.v, ghost.adm, ghost.last>>
=============================================================================
