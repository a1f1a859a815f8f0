---------------------------- MODULE TraceSchema ----------------------------
(* Conformance of recorded executions to FdbSchema: what was archived under
   which identity, and what is found again.                                  *)
EXTENDS FdbSchema, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, l, F,      \* F: field identity -> <<number of its latest version, place of the rule it was archived by>>
          P               \* archived and not yet flushed: sequence of <<identity, version>>
vars == <<tid, l, F, P>>
br == 0

ToSet2(s) == {s[i] : i \in 1..Len(s)}
Pred(p) == [kw |-> p.kw, kind |-> p.kind, vals |-> ToSet2(p.vals), def |-> p.def]
RECURSIVE Rule(_)
Rule(r) == [preds |-> [i \in DOMAIN r.preds |-> Pred(r.preds[i])], types |-> r.types, sub |-> [i \in DOMAIN r.sub |-> Rule(r.sub[i])]]
Schemas == [t \in 1..Len(Traces) |-> [types |-> Traces[t].schema.types, rules |-> [i \in DOMAIN Traces[t].schema.rules |-> Rule(Traces[t].schema.rules[i])]]]
Sch == Schemas[tid]

Init == tid \in 1..Len(Traces) /\ l = 1 /\ F = <<>> /\ P = <<>>
Ev == Traces[tid].ev[l]
Eq(exp, obs) == IF exp = obs THEN TRUE
                ELSE /\ PrintT(<<"DIFF", tid, l, br, Ev.op, "expected", exp, "observed", obs>>)
                     /\ FALSE

Differ(exp, obs) == PrintT(<<"DIFF", tid, l, br, Ev.op, "expected", exp, "observed", obs>>) /\ FALSE

\* a day may begin during an execution
Todays(e) == {<<d[1], d[2], d[3]>> : d \in ToSet2(e.today)}
Req(e) == [x \in DOMAIN e.req |-> ToSet2(e.req[x])]
Merge(id) == id[3] @@ id[2] @@ id[1]
Obs(o) == <<o[1], o[2], o[3]>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

DoArchive(e) ==
    LET rs == UNION {Write(Sch, e.key, t) : t \in Todays(e)}
        ok == e.res = "ok"
    IN /\ IF \E r \in rs : r.ok = ok THEN TRUE ELSE Differ(rs, e.res)
       /\ e.res \notin {"died"}
       /\ \E r \in rs : r.ok = ok /\ P' = IF ok THEN Append(P, <<r.id, <<e.v, r.at>>>>) ELSE P
       /\ F' = F
RECURSIVE Commit(_, _)
Commit(f, p) == IF p = <<>> THEN f ELSE Commit(Put(f, p[1][1], p[1][2]), Tail(p))
DoFlush(e) == Eq("ok", e.res) /\ F' = Commit(F, P) /\ P' = <<>>
Found(e, t, may) == Reached(Sch, [f \in DOMAIN F |-> F[f][2]], Req(e), t, may)
DoRetrieve(e) ==
    /\ Eq("ok", e.res)
    /\ LET os == ToSet2(e.vs)
           xs == {<<{F[f][1] : f \in Found(e, t, FALSE)}, {F[f][1] : f \in Found(e, t, TRUE)}>> : t \in Todays(e)}
       IN IF \E x \in xs : x[1] \subseteq os /\ os \subseteq x[2] THEN TRUE ELSE Differ(xs, os)
    /\ UNCHANGED <<F, P>>
DoInspect(e) ==
    /\ Eq("ok", e.res)
    /\ LET os == {<<Obs(o.k), o.v>> : o \in ToSet2(e.obs)}
           xs == {<<{<<f, F[f][1]>> : f \in Found(e, t, FALSE)}, {<<f, F[f][1]>> : f \in Found(e, t, TRUE)}>> : t \in Todays(e)}
       IN IF \E x \in xs : x[1] \subseteq os /\ os \subseteq x[2] THEN TRUE ELSE Differ(xs, os)
    /\ UNCHANGED <<F, P>>
\* everything, each field with its identity split as the rule says
DoList(e) ==
    /\ Eq("ok", e.res)
    /\ Eq({<<f, F[f][1]>> : f \in DOMAIN F}, {<<Obs(o.k), o.v>> : o \in ToSet2(e.obs)})
    /\ Eq(Cardinality(DOMAIN F), Len(e.obs))
    /\ UNCHANGED <<F, P>>
\* deletes superseded data only
DoPurge(e) == Eq("ok", e.res) /\ UNCHANGED <<F, P>>
\* The canonical value of a spelling, straight from the type (of dates and expvers: the form archiving insists on)
DoType(e) ==
    /\ LET xs == {[i \in DOMAIN e.values |-> LET c == IF e.type = "Expver" THEN ZeroPad(e.values[i], 4) ELSE Canon(e.type, e.values[i], t) IN IF c = Bad THEN c ELSE Lower(c)] : t \in Todays(e)}
           os == IF e.type \in {"Date", "Expver"} THEN e.tidy ELSE e.out
       IN IF os \in xs THEN TRUE ELSE \E x \in xs : Differ([i \in {j \in DOMAIN os : x[j] # os[j]} |-> <<e.values[i], x[i]>>], [i \in {j \in DOMAIN os : x[j] # os[j]} |-> os[i]])
    /\ UNCHANGED <<F, P>>

Step(e) == CASE e.op = "archive" -> DoArchive(e)
             [] e.op = "flush" -> DoFlush(e)
             [] e.op = "retrieve" -> DoRetrieve(e)
             [] e.op = "inspect" -> DoInspect(e)
             [] e.op = "list" -> DoList(e)
             [] e.op = "purge" -> DoPurge(e)
             [] e.op = "type" -> DoType(e)
Next == /\ l <= Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid /\ Step(Ev)
Spec == Init /\ [][Next]_vars

Reg(t) == 1000 * t
ASSUME \A t \in 1..Len(Traces) : TLCSet(Reg(t), 0)
Progress == TLCSet(Reg(tid), IF TLCGet(Reg(tid)) < l - 1 THEN l - 1 ELSE TLCGet(Reg(tid)))
Accepted == /\ \A t \in 1..Len(Traces) :
                  \/ TLCGet(Reg(t)) = Len(Traces[t].ev)
                  \/ PrintT(<<"REJECT", t, TLCGet(Reg(t))>>)
            /\ PrintT(<<"VALIDATED", Len(Traces)>>)
=============================================================================
